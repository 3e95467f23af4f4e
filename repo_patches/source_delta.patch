From 6865899531ad73623f23082294eb3384a5859d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 01/14] fix: tokenize() leaks the text of the first token and
 reads an uninitialized location

---
 src/SQLParser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index b3bf0df..9c1d154 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -51,19 +51,20 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   YY_BUFFER_STATE state;
   state = hsql__scan_string(sql.c_str(), scanner);
 
-  YYSTYPE yylval;
-  YYLTYPE yylloc;
+  YYSTYPE yylval{};
+  YYLTYPE yylloc{};
 
   // Step through the string until EOF is read.
   // Note: hsql_lex returns int, but we know that its range is within 16 bit.
   int16_t token = hsql_lex(&yylval, &yylloc, scanner);
   while (token != 0) {
-    tokens->push_back(token);
-    token = hsql_lex(&yylval, &yylloc, scanner);
-
+    // Only the token itself is of interest, the lexer's copy of its text is not.
     if (token == SQL_IDENTIFIER || token == SQL_STRING) {
       free(yylval.sval);
     }
+
+    tokens->push_back(token);
+    token = hsql_lex(&yylval, &yylloc, scanner);
   }
 
   hsql__delete_buffer(state, scanner);
-- 
2.43.0


From f22348860d856494ddf5387ea7a42b417d445884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 02/14] fix: reject queries with unterminated strings, unknown
 characters, or out-of-range integers

The lexer reported these as the end of the input (or returned the result of fprintf), so the part of the query
before them was accepted.
---
 src/parser/bison_parser.cpp | 6141 ++++++++++++++++++-----------------
 src/parser/bison_parser.h   |  390 +--
 src/parser/bison_parser.y   |    3 +
 src/parser/flex_lexer.cpp   |  703 ++--
 src/parser/flex_lexer.h     |  473 ++-
 src/parser/flex_lexer.l     |    8 +-
 6 files changed, 4250 insertions(+), 3468 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 8e44501..f13d1d1 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -1,8 +1,9 @@
-/* A Bison parser, made by GNU Bison 3.0.4.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison implementation for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015 Free Software Foundation, Inc.
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
+   Inc.
 
    This program is free software: you can redistribute it and/or modify
    it under the terms of the GNU General Public License as published by
@@ -15,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -33,6 +34,10 @@
 /* C LALR(1) parser skeleton written by Richard Stallman, by
    simplifying the original so-called "semantic" parser.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 /* All symbols defined below should begin with yy or YY, to avoid
    infringing on user name space.  This should be done even for local
    variables, as they might otherwise be expanded by user macros.
@@ -40,11 +45,11 @@
    define necessary library symbols; they are noted "INFRINGES ON
    USER NAME SPACE" below.  */
 
-/* Identify Bison output.  */
-#define YYBISON 1
+/* Identify Bison output, and Bison version.  */
+#define YYBISON 30802
 
-/* Bison version.  */
-#define YYBISON_VERSION "3.0.4"
+/* Bison version string.  */
+#define YYBISON_VERSION "3.8.2"
 
 /* Skeleton name.  */
 #define YYSKELETON_NAME "yacc.c"
@@ -68,9 +73,8 @@
 #define yydebug         hsql_debug
 #define yynerrs         hsql_nerrs
 
-
-/* Copy the first part of user declarations.  */
-#line 2 "bison_parser.y" /* yacc.c:339  */
+/* First part of user prologue.  */
+#line 2 "bison_parser.y"
 
 
 /**
@@ -101,394 +105,461 @@
   }
   // clang-format off
 
-#line 105 "bison_parser.cpp" /* yacc.c:339  */
+#line 109 "bison_parser.cpp"
 
-# ifndef YY_NULLPTR
-#  if defined __cplusplus && 201103L <= __cplusplus
-#   define YY_NULLPTR nullptr
+# ifndef YY_CAST
+#  ifdef __cplusplus
+#   define YY_CAST(Type, Val) static_cast<Type> (Val)
+#   define YY_REINTERPRET_CAST(Type, Val) reinterpret_cast<Type> (Val)
 #  else
-#   define YY_NULLPTR 0
+#   define YY_CAST(Type, Val) ((Type) (Val))
+#   define YY_REINTERPRET_CAST(Type, Val) ((Type) (Val))
 #  endif
 # endif
-
-/* Enabling verbose error messages.  */
-#ifdef YYERROR_VERBOSE
-# undef YYERROR_VERBOSE
-# define YYERROR_VERBOSE 1
-#else
-# define YYERROR_VERBOSE 1
-#endif
-
-/* In a future release of Bison, this section will be replaced
-   by #include "bison_parser.h".  */
-#ifndef YY_HSQL_BISON_PARSER_H_INCLUDED
-# define YY_HSQL_BISON_PARSER_H_INCLUDED
-/* Debug traces.  */
-#ifndef HSQL_DEBUG
-# if defined YYDEBUG
-#if YYDEBUG
-#   define HSQL_DEBUG 1
+# ifndef YY_NULLPTR
+#  if defined __cplusplus
+#   if 201103L <= __cplusplus
+#    define YY_NULLPTR nullptr
+#   else
+#    define YY_NULLPTR 0
+#   endif
 #  else
-#   define HSQL_DEBUG 0
+#   define YY_NULLPTR ((void*)0)
 #  endif
-# else /* ! defined YYDEBUG */
-#  define HSQL_DEBUG 0
-# endif /* ! defined YYDEBUG */
-#endif  /* ! defined HSQL_DEBUG */
-#if HSQL_DEBUG
-extern int hsql_debug;
-#endif
-/* "%code requires" blocks.  */
-#line 39 "bison_parser.y" /* yacc.c:355  */
-
-// %code requires block
-
-#include "../SQLParserResult.h"
-#include "../sql/statements.h"
-#include "parser_typedef.h"
-
-// Auto update column and line number
-#define YY_USER_ACTION                        \
-  yylloc->first_line = yylloc->last_line;     \
-  yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
-    yylloc->total_column++;                   \
-    yylloc->string_length++;                  \
-    if (yytext[i] == '\n') {                  \
-      yylloc->last_line++;                    \
-      yylloc->last_column = 0;                \
-    } else {                                  \
-      yylloc->last_column++;                  \
-    }                                         \
-  }
-
-#line 166 "bison_parser.cpp" /* yacc.c:355  */
-
-/* Token type.  */
-#ifndef HSQL_TOKENTYPE
-# define HSQL_TOKENTYPE
-  enum hsql_tokentype
-  {
-    SQL_IDENTIFIER = 258,
-    SQL_STRING = 259,
-    SQL_FLOATVAL = 260,
-    SQL_INTVAL = 261,
-    SQL_DEALLOCATE = 262,
-    SQL_PARAMETERS = 263,
-    SQL_INTERSECT = 264,
-    SQL_TEMPORARY = 265,
-    SQL_TIMESTAMP = 266,
-    SQL_DISTINCT = 267,
-    SQL_NVARCHAR = 268,
-    SQL_RESTRICT = 269,
-    SQL_TRUNCATE = 270,
-    SQL_ANALYZE = 271,
-    SQL_BETWEEN = 272,
-    SQL_CASCADE = 273,
-    SQL_COLUMNS = 274,
-    SQL_CONTROL = 275,
-    SQL_DEFAULT = 276,
-    SQL_EXECUTE = 277,
-    SQL_EXPLAIN = 278,
-    SQL_ENCODING = 279,
-    SQL_INTEGER = 280,
-    SQL_NATURAL = 281,
-    SQL_PREPARE = 282,
-    SQL_SCHEMAS = 283,
-    SQL_CHARACTER_VARYING = 284,
-    SQL_REAL = 285,
-    SQL_DECIMAL = 286,
-    SQL_SMALLINT = 287,
-    SQL_BIGINT = 288,
-    SQL_SPATIAL = 289,
-    SQL_VARCHAR = 290,
-    SQL_VIRTUAL = 291,
-    SQL_DESCRIBE = 292,
-    SQL_BEFORE = 293,
-    SQL_COLUMN = 294,
-    SQL_CREATE = 295,
-    SQL_DELETE = 296,
-    SQL_DIRECT = 297,
-    SQL_DOUBLE = 298,
-    SQL_ESCAPE = 299,
-    SQL_EXCEPT = 300,
-    SQL_EXISTS = 301,
-    SQL_EXTRACT = 302,
-    SQL_CAST = 303,
-    SQL_FORMAT = 304,
-    SQL_GLOBAL = 305,
-    SQL_HAVING = 306,
-    SQL_IMPORT = 307,
-    SQL_INSERT = 308,
-    SQL_ISNULL = 309,
-    SQL_OFFSET = 310,
-    SQL_RENAME = 311,
-    SQL_SCHEMA = 312,
-    SQL_SELECT = 313,
-    SQL_SORTED = 314,
-    SQL_TABLES = 315,
-    SQL_UNLOAD = 316,
-    SQL_UPDATE = 317,
-    SQL_VALUES = 318,
-    SQL_AFTER = 319,
-    SQL_ALTER = 320,
-    SQL_CROSS = 321,
-    SQL_DELTA = 322,
-    SQL_FLOAT = 323,
-    SQL_GROUP = 324,
-    SQL_INDEX = 325,
-    SQL_INNER = 326,
-    SQL_LIMIT = 327,
-    SQL_LOCAL = 328,
-    SQL_MERGE = 329,
-    SQL_MINUS = 330,
-    SQL_ORDER = 331,
-    SQL_OVER = 332,
-    SQL_OUTER = 333,
-    SQL_RIGHT = 334,
-    SQL_TABLE = 335,
-    SQL_UNION = 336,
-    SQL_USING = 337,
-    SQL_WHERE = 338,
-    SQL_CALL = 339,
-    SQL_CASE = 340,
-    SQL_CHAR = 341,
-    SQL_COPY = 342,
-    SQL_DATE = 343,
-    SQL_DATETIME = 344,
-    SQL_DESC = 345,
-    SQL_DROP = 346,
-    SQL_ELSE = 347,
-    SQL_FILE = 348,
-    SQL_FROM = 349,
-    SQL_FULL = 350,
-    SQL_HASH = 351,
-    SQL_HINT = 352,
-    SQL_INTO = 353,
-    SQL_JOIN = 354,
-    SQL_LEFT = 355,
-    SQL_LIKE = 356,
-    SQL_LOAD = 357,
-    SQL_LONG = 358,
-    SQL_NULL = 359,
-    SQL_PARTITION = 360,
-    SQL_PLAN = 361,
-    SQL_SHOW = 362,
-    SQL_TEXT = 363,
-    SQL_THEN = 364,
-    SQL_TIME = 365,
-    SQL_VIEW = 366,
-    SQL_WHEN = 367,
-    SQL_WITH = 368,
-    SQL_ADD = 369,
-    SQL_ALL = 370,
-    SQL_AND = 371,
-    SQL_ASC = 372,
-    SQL_END = 373,
-    SQL_FOR = 374,
-    SQL_INT = 375,
-    SQL_NOT = 376,
-    SQL_OFF = 377,
-    SQL_SET = 378,
-    SQL_TOP = 379,
-    SQL_AS = 380,
-    SQL_BY = 381,
-    SQL_IF = 382,
-    SQL_IN = 383,
-    SQL_IS = 384,
-    SQL_OF = 385,
-    SQL_ON = 386,
-    SQL_OR = 387,
-    SQL_TO = 388,
-    SQL_NO = 389,
-    SQL_ARRAY = 390,
-    SQL_CONCAT = 391,
-    SQL_ILIKE = 392,
-    SQL_SECOND = 393,
-    SQL_MINUTE = 394,
-    SQL_HOUR = 395,
-    SQL_DAY = 396,
-    SQL_MONTH = 397,
-    SQL_YEAR = 398,
-    SQL_SECONDS = 399,
-    SQL_MINUTES = 400,
-    SQL_HOURS = 401,
-    SQL_DAYS = 402,
-    SQL_MONTHS = 403,
-    SQL_YEARS = 404,
-    SQL_INTERVAL = 405,
-    SQL_TRUE = 406,
-    SQL_FALSE = 407,
-    SQL_BOOLEAN = 408,
-    SQL_TRANSACTION = 409,
-    SQL_BEGIN = 410,
-    SQL_COMMIT = 411,
-    SQL_ROLLBACK = 412,
-    SQL_NOWAIT = 413,
-    SQL_SKIP = 414,
-    SQL_LOCKED = 415,
-    SQL_SHARE = 416,
-    SQL_RANGE = 417,
-    SQL_ROWS = 418,
-    SQL_GROUPS = 419,
-    SQL_UNBOUNDED = 420,
-    SQL_FOLLOWING = 421,
-    SQL_PRECEDING = 422,
-    SQL_CURRENT_ROW = 423,
-    SQL_UNIQUE = 424,
-    SQL_PRIMARY = 425,
-    SQL_FOREIGN = 426,
-    SQL_KEY = 427,
-    SQL_REFERENCES = 428,
-    SQL_EQUALS = 429,
-    SQL_NOTEQUALS = 430,
-    SQL_LESS = 431,
-    SQL_GREATER = 432,
-    SQL_LESSEQ = 433,
-    SQL_GREATEREQ = 434,
-    SQL_NOTNULL = 435,
-    SQL_UMINUS = 436
-  };
-#endif
-
-/* Value type.  */
-#if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
+# endif
 
-union HSQL_STYPE
+#include "bison_parser.h"
+/* Symbol kind.  */
+enum yysymbol_kind_t
 {
-#line 102 "bison_parser.y" /* yacc.c:355  */
-
-  // clang-format on
-  bool bval;
-  char* sval;
-  double fval;
-  int64_t ival;
-  uintmax_t uval;
-
-  // statements
-  hsql::AlterStatement* alter_stmt;
-  hsql::CreateStatement* create_stmt;
-  hsql::DeleteStatement* delete_stmt;
-  hsql::DropStatement* drop_stmt;
-  hsql::ExecuteStatement* exec_stmt;
-  hsql::ExportStatement* export_stmt;
-  hsql::ImportStatement* import_stmt;
-  hsql::InsertStatement* insert_stmt;
-  hsql::PrepareStatement* prep_stmt;
-  hsql::SelectStatement* select_stmt;
-  hsql::ShowStatement* show_stmt;
-  hsql::SQLStatement* statement;
-  hsql::TransactionStatement* transaction_stmt;
-  hsql::UpdateStatement* update_stmt;
-
-  hsql::Alias* alias_t;
-  hsql::AlterAction* alter_action_t;
-  hsql::ColumnConstraints* column_constraints_t;
-  hsql::ColumnDefinition* column_t;
-  hsql::ColumnType column_type_t;
-  hsql::ConstraintType column_constraint_t;
-  hsql::DatetimeField datetime_field;
-  hsql::DropColumnAction* drop_action_t;
-  hsql::Expr* expr;
-  hsql::FrameBound* frame_bound;
-  hsql::FrameDescription* frame_description;
-  hsql::FrameType frame_type;
-  hsql::GroupByDescription* group_t;
-  hsql::ImportType import_type_t;
-  hsql::JoinType join_type;
-  hsql::LimitDescription* limit;
-  hsql::LockingClause* locking_t;
-  hsql::OrderDescription* order;
-  hsql::OrderType order_type;
-  hsql::NullOrdering null_ordering_t;
-  hsql::ReferencesSpecification* references_spec_t;
-  hsql::SetOperation* set_operator_t;
-  hsql::TableConstraint* table_constraint_t;
-  hsql::TableElement* table_element_t;
-  hsql::TableName table_name;
-  hsql::TableRef* table;
-  hsql::UpdateClause* update_t;
-  hsql::WindowDescription* window_description;
-  hsql::WithDescription* with_description_t;
-
-  std::vector<char*>* str_vec;
-  std::vector<hsql::Expr*>* expr_vec;
-  std::vector<hsql::OrderDescription*>* order_vec;
-  std::vector<hsql::SQLStatement*>* stmt_vec;
-  std::vector<hsql::TableElement*>* table_element_vec;
-  std::vector<hsql::TableRef*>* table_vec;
-  std::vector<hsql::UpdateClause*>* update_vec;
-  std::vector<hsql::WithDescription*>* with_description_vec;
-  std::vector<hsql::LockingClause*>* locking_clause_vec;
-
-  std::pair<int64_t, int64_t>* ival_pair;
-
-  hsql::RowLockMode lock_mode_t;
-  hsql::RowLockWaitPolicy lock_wait_policy_t;
-
-  hsql::ImportExportOptions* import_export_option_t;
-  std::pair<hsql::CsvOptionType, char*>* csv_option_t;
-
-  // clang-format off
-
-#line 435 "bison_parser.cpp" /* yacc.c:355  */
+  YYSYMBOL_YYEMPTY = -2,
+  YYSYMBOL_YYEOF = 0,                      /* "end of file"  */
+  YYSYMBOL_YYerror = 1,                    /* error  */
+  YYSYMBOL_YYUNDEF = 2,                    /* "invalid token"  */
+  YYSYMBOL_IDENTIFIER = 3,                 /* IDENTIFIER  */
+  YYSYMBOL_STRING = 4,                     /* STRING  */
+  YYSYMBOL_FLOATVAL = 5,                   /* FLOATVAL  */
+  YYSYMBOL_INTVAL = 6,                     /* INTVAL  */
+  YYSYMBOL_DEALLOCATE = 7,                 /* DEALLOCATE  */
+  YYSYMBOL_PARAMETERS = 8,                 /* PARAMETERS  */
+  YYSYMBOL_INTERSECT = 9,                  /* INTERSECT  */
+  YYSYMBOL_TEMPORARY = 10,                 /* TEMPORARY  */
+  YYSYMBOL_TIMESTAMP = 11,                 /* TIMESTAMP  */
+  YYSYMBOL_DISTINCT = 12,                  /* DISTINCT  */
+  YYSYMBOL_NVARCHAR = 13,                  /* NVARCHAR  */
+  YYSYMBOL_RESTRICT = 14,                  /* RESTRICT  */
+  YYSYMBOL_TRUNCATE = 15,                  /* TRUNCATE  */
+  YYSYMBOL_ANALYZE = 16,                   /* ANALYZE  */
+  YYSYMBOL_BETWEEN = 17,                   /* BETWEEN  */
+  YYSYMBOL_CASCADE = 18,                   /* CASCADE  */
+  YYSYMBOL_COLUMNS = 19,                   /* COLUMNS  */
+  YYSYMBOL_CONTROL = 20,                   /* CONTROL  */
+  YYSYMBOL_DEFAULT = 21,                   /* DEFAULT  */
+  YYSYMBOL_EXECUTE = 22,                   /* EXECUTE  */
+  YYSYMBOL_EXPLAIN = 23,                   /* EXPLAIN  */
+  YYSYMBOL_ENCODING = 24,                  /* ENCODING  */
+  YYSYMBOL_INTEGER = 25,                   /* INTEGER  */
+  YYSYMBOL_NATURAL = 26,                   /* NATURAL  */
+  YYSYMBOL_PREPARE = 27,                   /* PREPARE  */
+  YYSYMBOL_SCHEMAS = 28,                   /* SCHEMAS  */
+  YYSYMBOL_CHARACTER_VARYING = 29,         /* CHARACTER_VARYING  */
+  YYSYMBOL_REAL = 30,                      /* REAL  */
+  YYSYMBOL_DECIMAL = 31,                   /* DECIMAL  */
+  YYSYMBOL_SMALLINT = 32,                  /* SMALLINT  */
+  YYSYMBOL_BIGINT = 33,                    /* BIGINT  */
+  YYSYMBOL_SPATIAL = 34,                   /* SPATIAL  */
+  YYSYMBOL_VARCHAR = 35,                   /* VARCHAR  */
+  YYSYMBOL_VIRTUAL = 36,                   /* VIRTUAL  */
+  YYSYMBOL_DESCRIBE = 37,                  /* DESCRIBE  */
+  YYSYMBOL_BEFORE = 38,                    /* BEFORE  */
+  YYSYMBOL_COLUMN = 39,                    /* COLUMN  */
+  YYSYMBOL_CREATE = 40,                    /* CREATE  */
+  YYSYMBOL_DELETE = 41,                    /* DELETE  */
+  YYSYMBOL_DIRECT = 42,                    /* DIRECT  */
+  YYSYMBOL_DOUBLE = 43,                    /* DOUBLE  */
+  YYSYMBOL_ESCAPE = 44,                    /* ESCAPE  */
+  YYSYMBOL_EXCEPT = 45,                    /* EXCEPT  */
+  YYSYMBOL_EXISTS = 46,                    /* EXISTS  */
+  YYSYMBOL_EXTRACT = 47,                   /* EXTRACT  */
+  YYSYMBOL_CAST = 48,                      /* CAST  */
+  YYSYMBOL_FORMAT = 49,                    /* FORMAT  */
+  YYSYMBOL_GLOBAL = 50,                    /* GLOBAL  */
+  YYSYMBOL_HAVING = 51,                    /* HAVING  */
+  YYSYMBOL_IMPORT = 52,                    /* IMPORT  */
+  YYSYMBOL_INSERT = 53,                    /* INSERT  */
+  YYSYMBOL_ISNULL = 54,                    /* ISNULL  */
+  YYSYMBOL_OFFSET = 55,                    /* OFFSET  */
+  YYSYMBOL_RENAME = 56,                    /* RENAME  */
+  YYSYMBOL_SCHEMA = 57,                    /* SCHEMA  */
+  YYSYMBOL_SELECT = 58,                    /* SELECT  */
+  YYSYMBOL_SORTED = 59,                    /* SORTED  */
+  YYSYMBOL_TABLES = 60,                    /* TABLES  */
+  YYSYMBOL_UNLOAD = 61,                    /* UNLOAD  */
+  YYSYMBOL_UPDATE = 62,                    /* UPDATE  */
+  YYSYMBOL_VALUES = 63,                    /* VALUES  */
+  YYSYMBOL_AFTER = 64,                     /* AFTER  */
+  YYSYMBOL_ALTER = 65,                     /* ALTER  */
+  YYSYMBOL_CROSS = 66,                     /* CROSS  */
+  YYSYMBOL_DELTA = 67,                     /* DELTA  */
+  YYSYMBOL_FLOAT = 68,                     /* FLOAT  */
+  YYSYMBOL_GROUP = 69,                     /* GROUP  */
+  YYSYMBOL_INDEX = 70,                     /* INDEX  */
+  YYSYMBOL_INNER = 71,                     /* INNER  */
+  YYSYMBOL_LIMIT = 72,                     /* LIMIT  */
+  YYSYMBOL_LOCAL = 73,                     /* LOCAL  */
+  YYSYMBOL_MERGE = 74,                     /* MERGE  */
+  YYSYMBOL_MINUS = 75,                     /* MINUS  */
+  YYSYMBOL_ORDER = 76,                     /* ORDER  */
+  YYSYMBOL_OVER = 77,                      /* OVER  */
+  YYSYMBOL_OUTER = 78,                     /* OUTER  */
+  YYSYMBOL_RIGHT = 79,                     /* RIGHT  */
+  YYSYMBOL_TABLE = 80,                     /* TABLE  */
+  YYSYMBOL_UNION = 81,                     /* UNION  */
+  YYSYMBOL_USING = 82,                     /* USING  */
+  YYSYMBOL_WHERE = 83,                     /* WHERE  */
+  YYSYMBOL_CALL = 84,                      /* CALL  */
+  YYSYMBOL_CASE = 85,                      /* CASE  */
+  YYSYMBOL_CHAR = 86,                      /* CHAR  */
+  YYSYMBOL_COPY = 87,                      /* COPY  */
+  YYSYMBOL_DATE = 88,                      /* DATE  */
+  YYSYMBOL_DATETIME = 89,                  /* DATETIME  */
+  YYSYMBOL_DESC = 90,                      /* DESC  */
+  YYSYMBOL_DROP = 91,                      /* DROP  */
+  YYSYMBOL_ELSE = 92,                      /* ELSE  */
+  YYSYMBOL_FILE = 93,                      /* FILE  */
+  YYSYMBOL_FROM = 94,                      /* FROM  */
+  YYSYMBOL_FULL = 95,                      /* FULL  */
+  YYSYMBOL_HASH = 96,                      /* HASH  */
+  YYSYMBOL_HINT = 97,                      /* HINT  */
+  YYSYMBOL_INTO = 98,                      /* INTO  */
+  YYSYMBOL_JOIN = 99,                      /* JOIN  */
+  YYSYMBOL_LEFT = 100,                     /* LEFT  */
+  YYSYMBOL_LIKE = 101,                     /* LIKE  */
+  YYSYMBOL_LOAD = 102,                     /* LOAD  */
+  YYSYMBOL_LONG = 103,                     /* LONG  */
+  YYSYMBOL_NULL = 104,                     /* NULL  */
+  YYSYMBOL_PARTITION = 105,                /* PARTITION  */
+  YYSYMBOL_PLAN = 106,                     /* PLAN  */
+  YYSYMBOL_SHOW = 107,                     /* SHOW  */
+  YYSYMBOL_TEXT = 108,                     /* TEXT  */
+  YYSYMBOL_THEN = 109,                     /* THEN  */
+  YYSYMBOL_TIME = 110,                     /* TIME  */
+  YYSYMBOL_VIEW = 111,                     /* VIEW  */
+  YYSYMBOL_WHEN = 112,                     /* WHEN  */
+  YYSYMBOL_WITH = 113,                     /* WITH  */
+  YYSYMBOL_ADD = 114,                      /* ADD  */
+  YYSYMBOL_ALL = 115,                      /* ALL  */
+  YYSYMBOL_AND = 116,                      /* AND  */
+  YYSYMBOL_ASC = 117,                      /* ASC  */
+  YYSYMBOL_END = 118,                      /* END  */
+  YYSYMBOL_FOR = 119,                      /* FOR  */
+  YYSYMBOL_INT = 120,                      /* INT  */
+  YYSYMBOL_NOT = 121,                      /* NOT  */
+  YYSYMBOL_OFF = 122,                      /* OFF  */
+  YYSYMBOL_SET = 123,                      /* SET  */
+  YYSYMBOL_TOP = 124,                      /* TOP  */
+  YYSYMBOL_AS = 125,                       /* AS  */
+  YYSYMBOL_BY = 126,                       /* BY  */
+  YYSYMBOL_IF = 127,                       /* IF  */
+  YYSYMBOL_IN = 128,                       /* IN  */
+  YYSYMBOL_IS = 129,                       /* IS  */
+  YYSYMBOL_OF = 130,                       /* OF  */
+  YYSYMBOL_ON = 131,                       /* ON  */
+  YYSYMBOL_OR = 132,                       /* OR  */
+  YYSYMBOL_TO = 133,                       /* TO  */
+  YYSYMBOL_NO = 134,                       /* NO  */
+  YYSYMBOL_ARRAY = 135,                    /* ARRAY  */
+  YYSYMBOL_CONCAT = 136,                   /* CONCAT  */
+  YYSYMBOL_ILIKE = 137,                    /* ILIKE  */
+  YYSYMBOL_SECOND = 138,                   /* SECOND  */
+  YYSYMBOL_MINUTE = 139,                   /* MINUTE  */
+  YYSYMBOL_HOUR = 140,                     /* HOUR  */
+  YYSYMBOL_DAY = 141,                      /* DAY  */
+  YYSYMBOL_MONTH = 142,                    /* MONTH  */
+  YYSYMBOL_YEAR = 143,                     /* YEAR  */
+  YYSYMBOL_SECONDS = 144,                  /* SECONDS  */
+  YYSYMBOL_MINUTES = 145,                  /* MINUTES  */
+  YYSYMBOL_HOURS = 146,                    /* HOURS  */
+  YYSYMBOL_DAYS = 147,                     /* DAYS  */
+  YYSYMBOL_MONTHS = 148,                   /* MONTHS  */
+  YYSYMBOL_YEARS = 149,                    /* YEARS  */
+  YYSYMBOL_INTERVAL = 150,                 /* INTERVAL  */
+  YYSYMBOL_TRUE = 151,                     /* TRUE  */
+  YYSYMBOL_FALSE = 152,                    /* FALSE  */
+  YYSYMBOL_BOOLEAN = 153,                  /* BOOLEAN  */
+  YYSYMBOL_TRANSACTION = 154,              /* TRANSACTION  */
+  YYSYMBOL_BEGIN = 155,                    /* BEGIN  */
+  YYSYMBOL_COMMIT = 156,                   /* COMMIT  */
+  YYSYMBOL_ROLLBACK = 157,                 /* ROLLBACK  */
+  YYSYMBOL_NOWAIT = 158,                   /* NOWAIT  */
+  YYSYMBOL_SKIP = 159,                     /* SKIP  */
+  YYSYMBOL_LOCKED = 160,                   /* LOCKED  */
+  YYSYMBOL_SHARE = 161,                    /* SHARE  */
+  YYSYMBOL_RANGE = 162,                    /* RANGE  */
+  YYSYMBOL_ROWS = 163,                     /* ROWS  */
+  YYSYMBOL_GROUPS = 164,                   /* GROUPS  */
+  YYSYMBOL_UNBOUNDED = 165,                /* UNBOUNDED  */
+  YYSYMBOL_FOLLOWING = 166,                /* FOLLOWING  */
+  YYSYMBOL_PRECEDING = 167,                /* PRECEDING  */
+  YYSYMBOL_CURRENT_ROW = 168,              /* CURRENT_ROW  */
+  YYSYMBOL_UNIQUE = 169,                   /* UNIQUE  */
+  YYSYMBOL_PRIMARY = 170,                  /* PRIMARY  */
+  YYSYMBOL_FOREIGN = 171,                  /* FOREIGN  */
+  YYSYMBOL_KEY = 172,                      /* KEY  */
+  YYSYMBOL_REFERENCES = 173,               /* REFERENCES  */
+  YYSYMBOL_INVALID = 174,                  /* INVALID  */
+  YYSYMBOL_175_ = 175,                     /* '='  */
+  YYSYMBOL_EQUALS = 176,                   /* EQUALS  */
+  YYSYMBOL_NOTEQUALS = 177,                /* NOTEQUALS  */
+  YYSYMBOL_178_ = 178,                     /* '<'  */
+  YYSYMBOL_179_ = 179,                     /* '>'  */
+  YYSYMBOL_LESS = 180,                     /* LESS  */
+  YYSYMBOL_GREATER = 181,                  /* GREATER  */
+  YYSYMBOL_LESSEQ = 182,                   /* LESSEQ  */
+  YYSYMBOL_GREATEREQ = 183,                /* GREATEREQ  */
+  YYSYMBOL_NOTNULL = 184,                  /* NOTNULL  */
+  YYSYMBOL_185_ = 185,                     /* '+'  */
+  YYSYMBOL_186_ = 186,                     /* '-'  */
+  YYSYMBOL_187_ = 187,                     /* '*'  */
+  YYSYMBOL_188_ = 188,                     /* '/'  */
+  YYSYMBOL_189_ = 189,                     /* '%'  */
+  YYSYMBOL_190_ = 190,                     /* '^'  */
+  YYSYMBOL_UMINUS = 191,                   /* UMINUS  */
+  YYSYMBOL_192_ = 192,                     /* '['  */
+  YYSYMBOL_193_ = 193,                     /* ']'  */
+  YYSYMBOL_194_ = 194,                     /* '('  */
+  YYSYMBOL_195_ = 195,                     /* ')'  */
+  YYSYMBOL_196_ = 196,                     /* '.'  */
+  YYSYMBOL_197_ = 197,                     /* ';'  */
+  YYSYMBOL_198_ = 198,                     /* ','  */
+  YYSYMBOL_199_ = 199,                     /* '?'  */
+  YYSYMBOL_YYACCEPT = 200,                 /* $accept  */
+  YYSYMBOL_input = 201,                    /* input  */
+  YYSYMBOL_statement_list = 202,           /* statement_list  */
+  YYSYMBOL_statement = 203,                /* statement  */
+  YYSYMBOL_preparable_statement = 204,     /* preparable_statement  */
+  YYSYMBOL_opt_hints = 205,                /* opt_hints  */
+  YYSYMBOL_hint_list = 206,                /* hint_list  */
+  YYSYMBOL_hint = 207,                     /* hint  */
+  YYSYMBOL_transaction_statement = 208,    /* transaction_statement  */
+  YYSYMBOL_opt_transaction_keyword = 209,  /* opt_transaction_keyword  */
+  YYSYMBOL_prepare_statement = 210,        /* prepare_statement  */
+  YYSYMBOL_prepare_target_query = 211,     /* prepare_target_query  */
+  YYSYMBOL_execute_statement = 212,        /* execute_statement  */
+  YYSYMBOL_import_statement = 213,         /* import_statement  */
+  YYSYMBOL_file_type = 214,                /* file_type  */
+  YYSYMBOL_file_path = 215,                /* file_path  */
+  YYSYMBOL_opt_import_export_options = 216, /* opt_import_export_options  */
+  YYSYMBOL_import_export_options = 217,    /* import_export_options  */
+  YYSYMBOL_csv_option = 218,               /* csv_option  */
+  YYSYMBOL_export_statement = 219,         /* export_statement  */
+  YYSYMBOL_show_statement = 220,           /* show_statement  */
+  YYSYMBOL_create_statement = 221,         /* create_statement  */
+  YYSYMBOL_opt_not_exists = 222,           /* opt_not_exists  */
+  YYSYMBOL_table_elem_commalist = 223,     /* table_elem_commalist  */
+  YYSYMBOL_table_elem = 224,               /* table_elem  */
+  YYSYMBOL_column_def = 225,               /* column_def  */
+  YYSYMBOL_column_type = 226,              /* column_type  */
+  YYSYMBOL_opt_time_precision = 227,       /* opt_time_precision  */
+  YYSYMBOL_opt_decimal_specification = 228, /* opt_decimal_specification  */
+  YYSYMBOL_opt_column_constraints = 229,   /* opt_column_constraints  */
+  YYSYMBOL_column_constraints = 230,       /* column_constraints  */
+  YYSYMBOL_column_constraint = 231,        /* column_constraint  */
+  YYSYMBOL_table_constraint = 232,         /* table_constraint  */
+  YYSYMBOL_references_spec = 233,          /* references_spec  */
+  YYSYMBOL_drop_statement = 234,           /* drop_statement  */
+  YYSYMBOL_opt_exists = 235,               /* opt_exists  */
+  YYSYMBOL_alter_statement = 236,          /* alter_statement  */
+  YYSYMBOL_alter_action = 237,             /* alter_action  */
+  YYSYMBOL_drop_action = 238,              /* drop_action  */
+  YYSYMBOL_delete_statement = 239,         /* delete_statement  */
+  YYSYMBOL_truncate_statement = 240,       /* truncate_statement  */
+  YYSYMBOL_insert_statement = 241,         /* insert_statement  */
+  YYSYMBOL_opt_column_list = 242,          /* opt_column_list  */
+  YYSYMBOL_update_statement = 243,         /* update_statement  */
+  YYSYMBOL_update_clause_commalist = 244,  /* update_clause_commalist  */
+  YYSYMBOL_update_clause = 245,            /* update_clause  */
+  YYSYMBOL_select_statement = 246,         /* select_statement  */
+  YYSYMBOL_select_within_set_operation = 247, /* select_within_set_operation  */
+  YYSYMBOL_select_within_set_operation_no_parentheses = 248, /* select_within_set_operation_no_parentheses  */
+  YYSYMBOL_select_with_paren = 249,        /* select_with_paren  */
+  YYSYMBOL_select_no_paren = 250,          /* select_no_paren  */
+  YYSYMBOL_set_operator = 251,             /* set_operator  */
+  YYSYMBOL_set_type = 252,                 /* set_type  */
+  YYSYMBOL_opt_all = 253,                  /* opt_all  */
+  YYSYMBOL_select_clause = 254,            /* select_clause  */
+  YYSYMBOL_opt_distinct = 255,             /* opt_distinct  */
+  YYSYMBOL_select_list = 256,              /* select_list  */
+  YYSYMBOL_opt_from_clause = 257,          /* opt_from_clause  */
+  YYSYMBOL_from_clause = 258,              /* from_clause  */
+  YYSYMBOL_opt_where = 259,                /* opt_where  */
+  YYSYMBOL_opt_group = 260,                /* opt_group  */
+  YYSYMBOL_opt_having = 261,               /* opt_having  */
+  YYSYMBOL_opt_order = 262,                /* opt_order  */
+  YYSYMBOL_order_list = 263,               /* order_list  */
+  YYSYMBOL_order_desc = 264,               /* order_desc  */
+  YYSYMBOL_opt_order_type = 265,           /* opt_order_type  */
+  YYSYMBOL_opt_null_ordering = 266,        /* opt_null_ordering  */
+  YYSYMBOL_opt_top = 267,                  /* opt_top  */
+  YYSYMBOL_opt_limit = 268,                /* opt_limit  */
+  YYSYMBOL_expr_list = 269,                /* expr_list  */
+  YYSYMBOL_opt_extended_literal_list = 270, /* opt_extended_literal_list  */
+  YYSYMBOL_extended_literal_list = 271,    /* extended_literal_list  */
+  YYSYMBOL_casted_extended_literal = 272,  /* casted_extended_literal  */
+  YYSYMBOL_extended_literal = 273,         /* extended_literal  */
+  YYSYMBOL_expr_alias = 274,               /* expr_alias  */
+  YYSYMBOL_expr = 275,                     /* expr  */
+  YYSYMBOL_operand = 276,                  /* operand  */
+  YYSYMBOL_scalar_expr = 277,              /* scalar_expr  */
+  YYSYMBOL_unary_expr = 278,               /* unary_expr  */
+  YYSYMBOL_binary_expr = 279,              /* binary_expr  */
+  YYSYMBOL_logic_expr = 280,               /* logic_expr  */
+  YYSYMBOL_in_expr = 281,                  /* in_expr  */
+  YYSYMBOL_case_expr = 282,                /* case_expr  */
+  YYSYMBOL_case_list = 283,                /* case_list  */
+  YYSYMBOL_exists_expr = 284,              /* exists_expr  */
+  YYSYMBOL_comp_expr = 285,                /* comp_expr  */
+  YYSYMBOL_function_expr = 286,            /* function_expr  */
+  YYSYMBOL_opt_window = 287,               /* opt_window  */
+  YYSYMBOL_opt_partition = 288,            /* opt_partition  */
+  YYSYMBOL_opt_frame_clause = 289,         /* opt_frame_clause  */
+  YYSYMBOL_frame_type = 290,               /* frame_type  */
+  YYSYMBOL_frame_bound = 291,              /* frame_bound  */
+  YYSYMBOL_extract_expr = 292,             /* extract_expr  */
+  YYSYMBOL_cast_expr = 293,                /* cast_expr  */
+  YYSYMBOL_datetime_field = 294,           /* datetime_field  */
+  YYSYMBOL_datetime_field_plural = 295,    /* datetime_field_plural  */
+  YYSYMBOL_duration_field = 296,           /* duration_field  */
+  YYSYMBOL_array_expr = 297,               /* array_expr  */
+  YYSYMBOL_array_index = 298,              /* array_index  */
+  YYSYMBOL_between_expr = 299,             /* between_expr  */
+  YYSYMBOL_column_name = 300,              /* column_name  */
+  YYSYMBOL_literal = 301,                  /* literal  */
+  YYSYMBOL_string_literal = 302,           /* string_literal  */
+  YYSYMBOL_bool_literal = 303,             /* bool_literal  */
+  YYSYMBOL_num_literal = 304,              /* num_literal  */
+  YYSYMBOL_int_literal = 305,              /* int_literal  */
+  YYSYMBOL_null_literal = 306,             /* null_literal  */
+  YYSYMBOL_date_literal = 307,             /* date_literal  */
+  YYSYMBOL_interval_literal = 308,         /* interval_literal  */
+  YYSYMBOL_param_expr = 309,               /* param_expr  */
+  YYSYMBOL_table_ref = 310,                /* table_ref  */
+  YYSYMBOL_table_ref_atomic = 311,         /* table_ref_atomic  */
+  YYSYMBOL_nonjoin_table_ref_atomic = 312, /* nonjoin_table_ref_atomic  */
+  YYSYMBOL_table_ref_commalist = 313,      /* table_ref_commalist  */
+  YYSYMBOL_table_ref_name = 314,           /* table_ref_name  */
+  YYSYMBOL_table_ref_name_no_alias = 315,  /* table_ref_name_no_alias  */
+  YYSYMBOL_table_name = 316,               /* table_name  */
+  YYSYMBOL_opt_index_name = 317,           /* opt_index_name  */
+  YYSYMBOL_table_alias = 318,              /* table_alias  */
+  YYSYMBOL_opt_table_alias = 319,          /* opt_table_alias  */
+  YYSYMBOL_alias = 320,                    /* alias  */
+  YYSYMBOL_opt_alias = 321,                /* opt_alias  */
+  YYSYMBOL_opt_locking_clause = 322,       /* opt_locking_clause  */
+  YYSYMBOL_opt_locking_clause_list = 323,  /* opt_locking_clause_list  */
+  YYSYMBOL_locking_clause = 324,           /* locking_clause  */
+  YYSYMBOL_row_lock_mode = 325,            /* row_lock_mode  */
+  YYSYMBOL_opt_row_lock_policy = 326,      /* opt_row_lock_policy  */
+  YYSYMBOL_opt_with_clause = 327,          /* opt_with_clause  */
+  YYSYMBOL_with_clause = 328,              /* with_clause  */
+  YYSYMBOL_with_description_list = 329,    /* with_description_list  */
+  YYSYMBOL_with_description = 330,         /* with_description  */
+  YYSYMBOL_join_clause = 331,              /* join_clause  */
+  YYSYMBOL_opt_join_type = 332,            /* opt_join_type  */
+  YYSYMBOL_join_condition = 333,           /* join_condition  */
+  YYSYMBOL_opt_semicolon = 334,            /* opt_semicolon  */
+  YYSYMBOL_ident_commalist = 335           /* ident_commalist  */
 };
+typedef enum yysymbol_kind_t yysymbol_kind_t;
 
-typedef union HSQL_STYPE HSQL_STYPE;
-# define HSQL_STYPE_IS_TRIVIAL 1
-# define HSQL_STYPE_IS_DECLARED 1
-#endif
-
-/* Location type.  */
-#if ! defined HSQL_LTYPE && ! defined HSQL_LTYPE_IS_DECLARED
-typedef struct HSQL_LTYPE HSQL_LTYPE;
-struct HSQL_LTYPE
-{
-  int first_line;
-  int first_column;
-  int last_line;
-  int last_column;
-};
-# define HSQL_LTYPE_IS_DECLARED 1
-# define HSQL_LTYPE_IS_TRIVIAL 1
-#endif
 
 
 
-int hsql_parse (hsql::SQLParserResult* result, yyscan_t scanner);
+#ifdef short
+# undef short
+#endif
 
-#endif /* !YY_HSQL_BISON_PARSER_H_INCLUDED  */
+/* On compilers that do not define __PTRDIFF_MAX__ etc., make sure
+   <limits.h> and (if available) <stdint.h> are included
+   so that the code can choose integer types of a good width.  */
 
-/* Copy the second part of user declarations.  */
+#ifndef __PTRDIFF_MAX__
+# include <limits.h> /* INFRINGES ON USER NAME SPACE */
+# if defined __STDC_VERSION__ && 199901 <= __STDC_VERSION__
+#  include <stdint.h> /* INFRINGES ON USER NAME SPACE */
+#  define YY_STDINT_H
+# endif
+#endif
 
-#line 465 "bison_parser.cpp" /* yacc.c:358  */
+/* Narrow types that promote to a signed type and that can represent a
+   signed or unsigned integer of at least N bits.  In tables they can
+   save space and decrease cache pressure.  Promoting to a signed type
+   helps avoid bugs in integer arithmetic.  */
 
-#ifdef short
-# undef short
+#ifdef __INT_LEAST8_MAX__
+typedef __INT_LEAST8_TYPE__ yytype_int8;
+#elif defined YY_STDINT_H
+typedef int_least8_t yytype_int8;
+#else
+typedef signed char yytype_int8;
 #endif
 
-#ifdef YYTYPE_UINT8
-typedef YYTYPE_UINT8 yytype_uint8;
+#ifdef __INT_LEAST16_MAX__
+typedef __INT_LEAST16_TYPE__ yytype_int16;
+#elif defined YY_STDINT_H
+typedef int_least16_t yytype_int16;
 #else
-typedef unsigned char yytype_uint8;
+typedef short yytype_int16;
 #endif
 
-#ifdef YYTYPE_INT8
-typedef YYTYPE_INT8 yytype_int8;
-#else
-typedef signed char yytype_int8;
+/* Work around bug in HP-UX 11.23, which defines these macros
+   incorrectly for preprocessor constants.  This workaround can likely
+   be removed in 2023, as HPE has promised support for HP-UX 11.23
+   (aka HP-UX 11i v2) only through the end of 2022; see Table 2 of
+   <https://h20195.www2.hpe.com/V2/getpdf.aspx/4AA4-7673ENW.pdf>.  */
+#ifdef __hpux
+# undef UINT_LEAST8_MAX
+# undef UINT_LEAST16_MAX
+# define UINT_LEAST8_MAX 255
+# define UINT_LEAST16_MAX 65535
 #endif
 
-#ifdef YYTYPE_UINT16
-typedef YYTYPE_UINT16 yytype_uint16;
+#if defined __UINT_LEAST8_MAX__ && __UINT_LEAST8_MAX__ <= __INT_MAX__
+typedef __UINT_LEAST8_TYPE__ yytype_uint8;
+#elif (!defined __UINT_LEAST8_MAX__ && defined YY_STDINT_H \
+       && UINT_LEAST8_MAX <= INT_MAX)
+typedef uint_least8_t yytype_uint8;
+#elif !defined __UINT_LEAST8_MAX__ && UCHAR_MAX <= INT_MAX
+typedef unsigned char yytype_uint8;
 #else
-typedef unsigned short int yytype_uint16;
+typedef short yytype_uint8;
 #endif
 
-#ifdef YYTYPE_INT16
-typedef YYTYPE_INT16 yytype_int16;
+#if defined __UINT_LEAST16_MAX__ && __UINT_LEAST16_MAX__ <= __INT_MAX__
+typedef __UINT_LEAST16_TYPE__ yytype_uint16;
+#elif (!defined __UINT_LEAST16_MAX__ && defined YY_STDINT_H \
+       && UINT_LEAST16_MAX <= INT_MAX)
+typedef uint_least16_t yytype_uint16;
+#elif !defined __UINT_LEAST16_MAX__ && USHRT_MAX <= INT_MAX
+typedef unsigned short yytype_uint16;
 #else
-typedef short int yytype_int16;
+typedef int yytype_uint16;
+#endif
+
+#ifndef YYPTRDIFF_T
+# if defined __PTRDIFF_TYPE__ && defined __PTRDIFF_MAX__
+#  define YYPTRDIFF_T __PTRDIFF_TYPE__
+#  define YYPTRDIFF_MAXIMUM __PTRDIFF_MAX__
+# elif defined PTRDIFF_MAX
+#  ifndef ptrdiff_t
+#   include <stddef.h> /* INFRINGES ON USER NAME SPACE */
+#  endif
+#  define YYPTRDIFF_T ptrdiff_t
+#  define YYPTRDIFF_MAXIMUM PTRDIFF_MAX
+# else
+#  define YYPTRDIFF_T long
+#  define YYPTRDIFF_MAXIMUM LONG_MAX
+# endif
 #endif
 
 #ifndef YYSIZE_T
@@ -496,15 +567,28 @@ typedef short int yytype_int16;
 #  define YYSIZE_T __SIZE_TYPE__
 # elif defined size_t
 #  define YYSIZE_T size_t
-# elif ! defined YYSIZE_T
+# elif defined __STDC_VERSION__ && 199901 <= __STDC_VERSION__
 #  include <stddef.h> /* INFRINGES ON USER NAME SPACE */
 #  define YYSIZE_T size_t
 # else
-#  define YYSIZE_T unsigned int
+#  define YYSIZE_T unsigned
 # endif
 #endif
 
-#define YYSIZE_MAXIMUM ((YYSIZE_T) -1)
+#define YYSIZE_MAXIMUM                                  \
+  YY_CAST (YYPTRDIFF_T,                                 \
+           (YYPTRDIFF_MAXIMUM < YY_CAST (YYSIZE_T, -1)  \
+            ? YYPTRDIFF_MAXIMUM                         \
+            : YY_CAST (YYSIZE_T, -1)))
+
+#define YYSIZEOF(X) YY_CAST (YYPTRDIFF_T, sizeof (X))
+
+
+/* Stored state numbers (used for stacks). */
+typedef yytype_int16 yy_state_t;
+
+/* State numbers in computations.  */
+typedef int yy_state_fast_t;
 
 #ifndef YY_
 # if defined YYENABLE_NLS && YYENABLE_NLS
@@ -518,47 +602,43 @@ typedef short int yytype_int16;
 # endif
 #endif
 
-#ifndef YY_ATTRIBUTE
-# if (defined __GNUC__                                               \
-      && (2 < __GNUC__ || (__GNUC__ == 2 && 96 <= __GNUC_MINOR__)))  \
-     || defined __SUNPRO_C && 0x5110 <= __SUNPRO_C
-#  define YY_ATTRIBUTE(Spec) __attribute__(Spec)
-# else
-#  define YY_ATTRIBUTE(Spec) /* empty */
-# endif
-#endif
 
 #ifndef YY_ATTRIBUTE_PURE
-# define YY_ATTRIBUTE_PURE   YY_ATTRIBUTE ((__pure__))
+# if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
+# else
+#  define YY_ATTRIBUTE_PURE
+# endif
 #endif
 
 #ifndef YY_ATTRIBUTE_UNUSED
-# define YY_ATTRIBUTE_UNUSED YY_ATTRIBUTE ((__unused__))
-#endif
-
-#if !defined _Noreturn \
-     && (!defined __STDC_VERSION__ || __STDC_VERSION__ < 201112)
-# if defined _MSC_VER && 1200 <= _MSC_VER
-#  define _Noreturn __declspec (noreturn)
+# if defined __GNUC__ && 2 < __GNUC__ + (7 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_UNUSED __attribute__ ((__unused__))
 # else
-#  define _Noreturn YY_ATTRIBUTE ((__noreturn__))
+#  define YY_ATTRIBUTE_UNUSED
 # endif
 #endif
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN \
-    _Pragma ("GCC diagnostic push") \
-    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")\
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
-# define YY_IGNORE_MAYBE_UNINITIALIZED_END \
+# endif
+# define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
 # define YY_INITIAL_VALUE(Value) Value
@@ -571,8 +651,22 @@ typedef short int yytype_int16;
 # define YY_INITIAL_VALUE(Value) /* Nothing. */
 #endif
 
+#if defined __cplusplus && defined __GNUC__ && ! defined __ICC && 6 <= __GNUC__
+# define YY_IGNORE_USELESS_CAST_BEGIN                          \
+    _Pragma ("GCC diagnostic push")                            \
+    _Pragma ("GCC diagnostic ignored \"-Wuseless-cast\"")
+# define YY_IGNORE_USELESS_CAST_END            \
+    _Pragma ("GCC diagnostic pop")
+#endif
+#ifndef YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_END
+#endif
 
-#if ! defined yyoverflow || YYERROR_VERBOSE
+
+#define YY_ASSERT(E) ((void) (0 && (E)))
+
+#if 1
 
 /* The parser invokes alloca or malloc; define the necessary symbols.  */
 
@@ -637,8 +731,7 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 #   endif
 #  endif
 # endif
-#endif /* ! defined yyoverflow || YYERROR_VERBOSE */
-
+#endif /* 1 */
 
 #if (! defined yyoverflow \
      && (! defined __cplusplus \
@@ -648,18 +741,19 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 /* A type that is properly aligned for any stack member.  */
 union yyalloc
 {
-  yytype_int16 yyss_alloc;
+  yy_state_t yyss_alloc;
   YYSTYPE yyvs_alloc;
   YYLTYPE yyls_alloc;
 };
 
 /* The size of the maximum gap between one aligned stack and the next.  */
-# define YYSTACK_GAP_MAXIMUM (sizeof (union yyalloc) - 1)
+# define YYSTACK_GAP_MAXIMUM (YYSIZEOF (union yyalloc) - 1)
 
 /* The size of an array large to enough to hold all stacks, each with
    N elements.  */
 # define YYSTACK_BYTES(N) \
-     ((N) * (sizeof (yytype_int16) + sizeof (YYSTYPE) + sizeof (YYLTYPE)) \
+     ((N) * (YYSIZEOF (yy_state_t) + YYSIZEOF (YYSTYPE) \
+             + YYSIZEOF (YYLTYPE)) \
       + 2 * YYSTACK_GAP_MAXIMUM)
 
 # define YYCOPY_NEEDED 1
@@ -672,11 +766,11 @@ union yyalloc
 # define YYSTACK_RELOCATE(Stack_alloc, Stack)                           \
     do                                                                  \
       {                                                                 \
-        YYSIZE_T yynewbytes;                                            \
+        YYPTRDIFF_T yynewbytes;                                         \
         YYCOPY (&yyptr->Stack_alloc, Stack, yysize);                    \
         Stack = &yyptr->Stack_alloc;                                    \
-        yynewbytes = yystacksize * sizeof (*Stack) + YYSTACK_GAP_MAXIMUM; \
-        yyptr += yynewbytes / sizeof (*yyptr);                          \
+        yynewbytes = yystacksize * YYSIZEOF (*Stack) + YYSTACK_GAP_MAXIMUM; \
+        yyptr += yynewbytes / YYSIZEOF (*yyptr);                        \
       }                                                                 \
     while (0)
 
@@ -688,12 +782,12 @@ union yyalloc
 # ifndef YYCOPY
 #  if defined __GNUC__ && 1 < __GNUC__
 #   define YYCOPY(Dst, Src, Count) \
-      __builtin_memcpy (Dst, Src, (Count) * sizeof (*(Src)))
+      __builtin_memcpy (Dst, Src, YY_CAST (YYSIZE_T, (Count)) * sizeof (*(Src)))
 #  else
 #   define YYCOPY(Dst, Src, Count)              \
       do                                        \
         {                                       \
-          YYSIZE_T yyi;                         \
+          YYPTRDIFF_T yyi;                      \
           for (yyi = 0; yyi < (Count); yyi++)   \
             (Dst)[yyi] = (Src)[yyi];            \
         }                                       \
@@ -708,7 +802,7 @@ union yyalloc
 #define YYLAST   856
 
 /* YYNTOKENS -- Number of terminals.  */
-#define YYNTOKENS  199
+#define YYNTOKENS  200
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  136
 /* YYNRULES -- Number of rules.  */
@@ -716,28 +810,31 @@ union yyalloc
 /* YYNSTATES -- Number of states.  */
 #define YYNSTATES  656
 
-/* YYTRANSLATE[YYX] -- Symbol number corresponding to YYX as returned
-   by yylex, with out-of-bounds checking.  */
-#define YYUNDEFTOK  2
-#define YYMAXUTOK   436
+/* YYMAXUTOK -- Last valid token kind.  */
+#define YYMAXUTOK   437
 
-#define YYTRANSLATE(YYX)                                                \
-  ((unsigned int) (YYX) <= YYMAXUTOK ? yytranslate[YYX] : YYUNDEFTOK)
+
+/* YYTRANSLATE(TOKEN-NUM) -- Symbol number corresponding to TOKEN-NUM
+   as returned by yylex, with out-of-bounds checking.  */
+#define YYTRANSLATE(YYX)                                \
+  (0 <= (YYX) && (YYX) <= YYMAXUTOK                     \
+   ? YY_CAST (yysymbol_kind_t, yytranslate[YYX])        \
+   : YYSYMBOL_YYUNDEF)
 
 /* YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to TOKEN-NUM
-   as returned by yylex, without out-of-bounds checking.  */
+   as returned by yylex.  */
 static const yytype_uint8 yytranslate[] =
 {
        0,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
-       2,     2,     2,     2,     2,     2,     2,   188,     2,     2,
-     193,   194,   186,   184,   197,   185,   195,   187,     2,     2,
-       2,     2,     2,     2,     2,     2,     2,     2,     2,   196,
-     177,   174,   178,   198,     2,     2,     2,     2,     2,     2,
+       2,     2,     2,     2,     2,     2,     2,   189,     2,     2,
+     194,   195,   187,   185,   198,   186,   196,   188,     2,     2,
+       2,     2,     2,     2,     2,     2,     2,     2,     2,   197,
+     178,   175,   179,   199,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
-       2,   191,     2,   192,   189,     2,     2,     2,     2,     2,
+       2,   192,     2,   193,   190,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
@@ -770,93 +867,101 @@ static const yytype_uint8 yytranslate[] =
      135,   136,   137,   138,   139,   140,   141,   142,   143,   144,
      145,   146,   147,   148,   149,   150,   151,   152,   153,   154,
      155,   156,   157,   158,   159,   160,   161,   162,   163,   164,
-     165,   166,   167,   168,   169,   170,   171,   172,   173,   175,
-     176,   179,   180,   181,   182,   183,   190
+     165,   166,   167,   168,   169,   170,   171,   172,   173,   174,
+     176,   177,   180,   181,   182,   183,   184,   191
 };
 
 #if HSQL_DEBUG
-  /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
-static const yytype_uint16 yyrline[] =
+/* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
+static const yytype_int16 yyrline[] =
 {
-       0,   343,   343,   362,   368,   375,   379,   383,   384,   385,
-     387,   388,   389,   390,   391,   392,   393,   394,   395,   396,
-     402,   403,   405,   409,   414,   418,   428,   429,   430,   432,
-     432,   438,   444,   446,   450,   462,   468,   485,   500,   502,
-     503,   504,   506,   520,   524,   534,   538,   562,   570,   583,
-     590,   605,   625,   626,   631,   642,   655,   667,   674,   681,
-     690,   691,   693,   697,   702,   703,   705,   713,   714,   715,
-     716,   717,   718,   719,   723,   724,   725,   726,   727,   728,
-     729,   730,   731,   732,   733,   735,   736,   738,   739,   740,
-     742,   743,   745,   749,   753,   758,   766,   767,   768,   769,
-     771,   772,   773,   775,   783,   789,   795,   801,   807,   808,
-     815,   821,   823,   833,   840,   851,   858,   866,   867,   874,
-     881,   885,   890,   900,   904,   908,   920,   920,   922,   923,
-     932,   933,   935,   949,   961,   966,   970,   974,   979,   980,
-     982,   992,   993,   995,   997,   998,  1000,  1002,  1003,  1005,
-    1010,  1012,  1013,  1015,  1016,  1018,  1022,  1027,  1029,  1030,
-    1031,  1033,  1034,  1056,  1057,  1059,  1060,  1061,  1062,  1063,
-    1064,  1069,  1073,  1079,  1080,  1082,  1086,  1091,  1091,  1095,
-    1103,  1104,  1106,  1115,  1115,  1115,  1115,  1115,  1117,  1118,
-    1118,  1118,  1118,  1118,  1118,  1118,  1118,  1119,  1119,  1123,
-    1123,  1125,  1126,  1127,  1128,  1129,  1131,  1131,  1132,  1133,
-    1134,  1135,  1136,  1137,  1138,  1139,  1140,  1142,  1143,  1145,
-    1146,  1147,  1148,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
-    1161,  1163,  1164,  1165,  1166,  1167,  1168,  1169,  1173,  1174,
-    1175,  1176,  1180,  1181,  1183,  1184,  1189,  1190,  1191,  1195,
-    1196,  1197,  1199,  1200,  1201,  1202,  1203,  1205,  1207,  1209,
-    1210,  1211,  1212,  1213,  1214,  1216,  1217,  1218,  1219,  1220,
-    1221,  1223,  1223,  1225,  1227,  1229,  1231,  1232,  1233,  1234,
-    1236,  1236,  1236,  1236,  1236,  1236,  1236,  1238,  1240,  1241,
-    1243,  1244,  1246,  1248,  1250,  1261,  1262,  1273,  1305,  1314,
-    1314,  1321,  1321,  1323,  1323,  1330,  1334,  1339,  1347,  1353,
-    1357,  1362,  1363,  1365,  1365,  1367,  1367,  1369,  1370,  1372,
-    1372,  1378,  1379,  1381,  1385,  1390,  1396,  1403,  1404,  1405,
-    1406,  1408,  1409,  1410,  1416,  1416,  1418,  1420,  1424,  1429,
-    1439,  1446,  1454,  1463,  1464,  1465,  1466,  1467,  1468,  1469,
-    1470,  1471,  1472,  1474,  1480,  1480,  1483,  1487
+       0,   346,   346,   365,   371,   378,   382,   386,   387,   388,
+     390,   391,   392,   393,   394,   395,   396,   397,   398,   399,
+     405,   406,   408,   412,   417,   421,   431,   432,   433,   435,
+     435,   441,   447,   449,   453,   465,   471,   488,   503,   505,
+     506,   507,   509,   523,   527,   537,   541,   565,   573,   586,
+     593,   608,   628,   629,   634,   645,   658,   670,   677,   684,
+     693,   694,   696,   700,   705,   706,   708,   716,   717,   718,
+     719,   720,   721,   722,   726,   727,   728,   729,   730,   731,
+     732,   733,   734,   735,   736,   738,   739,   741,   742,   743,
+     745,   746,   748,   752,   756,   761,   769,   770,   771,   772,
+     774,   775,   776,   778,   786,   792,   798,   804,   810,   811,
+     818,   824,   826,   836,   843,   854,   861,   869,   870,   877,
+     884,   888,   893,   903,   907,   911,   923,   923,   925,   926,
+     935,   936,   938,   952,   964,   969,   973,   977,   982,   983,
+     985,   995,   996,   998,  1000,  1001,  1003,  1005,  1006,  1008,
+    1013,  1015,  1016,  1018,  1019,  1021,  1025,  1030,  1032,  1033,
+    1034,  1036,  1037,  1059,  1060,  1062,  1063,  1064,  1065,  1066,
+    1067,  1072,  1076,  1082,  1083,  1085,  1089,  1094,  1094,  1098,
+    1106,  1107,  1109,  1118,  1118,  1118,  1118,  1118,  1120,  1121,
+    1121,  1121,  1121,  1121,  1121,  1121,  1121,  1122,  1122,  1126,
+    1126,  1128,  1129,  1130,  1131,  1132,  1134,  1134,  1135,  1136,
+    1137,  1138,  1139,  1140,  1141,  1142,  1143,  1145,  1146,  1148,
+    1149,  1150,  1151,  1155,  1156,  1157,  1158,  1160,  1161,  1163,
+    1164,  1166,  1167,  1168,  1169,  1170,  1171,  1172,  1176,  1177,
+    1178,  1179,  1183,  1184,  1186,  1187,  1192,  1193,  1194,  1198,
+    1199,  1200,  1202,  1203,  1204,  1205,  1206,  1208,  1210,  1212,
+    1213,  1214,  1215,  1216,  1217,  1219,  1220,  1221,  1222,  1223,
+    1224,  1226,  1226,  1228,  1230,  1232,  1234,  1235,  1236,  1237,
+    1239,  1239,  1239,  1239,  1239,  1239,  1239,  1241,  1243,  1244,
+    1246,  1247,  1249,  1251,  1253,  1264,  1265,  1276,  1308,  1317,
+    1317,  1324,  1324,  1326,  1326,  1333,  1337,  1342,  1350,  1356,
+    1360,  1365,  1366,  1368,  1368,  1370,  1370,  1372,  1373,  1375,
+    1375,  1381,  1382,  1384,  1388,  1393,  1399,  1406,  1407,  1408,
+    1409,  1411,  1412,  1413,  1419,  1419,  1421,  1423,  1427,  1432,
+    1442,  1449,  1457,  1466,  1467,  1468,  1469,  1470,  1471,  1472,
+    1473,  1474,  1475,  1477,  1483,  1483,  1486,  1490
 };
 #endif
 
-#if HSQL_DEBUG || YYERROR_VERBOSE || 1
+/** Accessing symbol of state STATE.  */
+#define YY_ACCESSING_SYMBOL(State) YY_CAST (yysymbol_kind_t, yystos[State])
+
+#if 1
+/* The user-facing name of the symbol whose (internal) number is
+   YYSYMBOL.  No bounds checking.  */
+static const char *yysymbol_name (yysymbol_kind_t yysymbol) YY_ATTRIBUTE_UNUSED;
+
 /* YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
    First, the terminals, then, starting at YYNTOKENS, nonterminals.  */
 static const char *const yytname[] =
 {
-  "$end", "error", "$undefined", "IDENTIFIER", "STRING", "FLOATVAL",
-  "INTVAL", "DEALLOCATE", "PARAMETERS", "INTERSECT", "TEMPORARY",
-  "TIMESTAMP", "DISTINCT", "NVARCHAR", "RESTRICT", "TRUNCATE", "ANALYZE",
-  "BETWEEN", "CASCADE", "COLUMNS", "CONTROL", "DEFAULT", "EXECUTE",
-  "EXPLAIN", "ENCODING", "INTEGER", "NATURAL", "PREPARE", "SCHEMAS",
-  "CHARACTER_VARYING", "REAL", "DECIMAL", "SMALLINT", "BIGINT", "SPATIAL",
-  "VARCHAR", "VIRTUAL", "DESCRIBE", "BEFORE", "COLUMN", "CREATE", "DELETE",
-  "DIRECT", "DOUBLE", "ESCAPE", "EXCEPT", "EXISTS", "EXTRACT", "CAST",
-  "FORMAT", "GLOBAL", "HAVING", "IMPORT", "INSERT", "ISNULL", "OFFSET",
-  "RENAME", "SCHEMA", "SELECT", "SORTED", "TABLES", "UNLOAD", "UPDATE",
-  "VALUES", "AFTER", "ALTER", "CROSS", "DELTA", "FLOAT", "GROUP", "INDEX",
-  "INNER", "LIMIT", "LOCAL", "MERGE", "MINUS", "ORDER", "OVER", "OUTER",
-  "RIGHT", "TABLE", "UNION", "USING", "WHERE", "CALL", "CASE", "CHAR",
-  "COPY", "DATE", "DATETIME", "DESC", "DROP", "ELSE", "FILE", "FROM",
-  "FULL", "HASH", "HINT", "INTO", "JOIN", "LEFT", "LIKE", "LOAD", "LONG",
-  "NULL", "PARTITION", "PLAN", "SHOW", "TEXT", "THEN", "TIME", "VIEW",
-  "WHEN", "WITH", "ADD", "ALL", "AND", "ASC", "END", "FOR", "INT", "NOT",
-  "OFF", "SET", "TOP", "AS", "BY", "IF", "IN", "IS", "OF", "ON", "OR",
-  "TO", "NO", "ARRAY", "CONCAT", "ILIKE", "SECOND", "MINUTE", "HOUR",
-  "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS", "DAYS", "MONTHS",
-  "YEARS", "INTERVAL", "TRUE", "FALSE", "BOOLEAN", "TRANSACTION", "BEGIN",
-  "COMMIT", "ROLLBACK", "NOWAIT", "SKIP", "LOCKED", "SHARE", "RANGE",
-  "ROWS", "GROUPS", "UNBOUNDED", "FOLLOWING", "PRECEDING", "CURRENT_ROW",
-  "UNIQUE", "PRIMARY", "FOREIGN", "KEY", "REFERENCES", "'='", "EQUALS",
-  "NOTEQUALS", "'<'", "'>'", "LESS", "GREATER", "LESSEQ", "GREATEREQ",
-  "NOTNULL", "'+'", "'-'", "'*'", "'/'", "'%'", "'^'", "UMINUS", "'['",
-  "']'", "'('", "')'", "'.'", "';'", "','", "'?'", "$accept", "input",
-  "statement_list", "statement", "preparable_statement", "opt_hints",
-  "hint_list", "hint", "transaction_statement", "opt_transaction_keyword",
-  "prepare_statement", "prepare_target_query", "execute_statement",
-  "import_statement", "file_type", "file_path",
-  "opt_import_export_options", "import_export_options", "csv_option",
-  "export_statement", "show_statement", "create_statement",
-  "opt_not_exists", "table_elem_commalist", "table_elem", "column_def",
-  "column_type", "opt_time_precision", "opt_decimal_specification",
+  "\"end of file\"", "error", "\"invalid token\"", "IDENTIFIER", "STRING",
+  "FLOATVAL", "INTVAL", "DEALLOCATE", "PARAMETERS", "INTERSECT",
+  "TEMPORARY", "TIMESTAMP", "DISTINCT", "NVARCHAR", "RESTRICT", "TRUNCATE",
+  "ANALYZE", "BETWEEN", "CASCADE", "COLUMNS", "CONTROL", "DEFAULT",
+  "EXECUTE", "EXPLAIN", "ENCODING", "INTEGER", "NATURAL", "PREPARE",
+  "SCHEMAS", "CHARACTER_VARYING", "REAL", "DECIMAL", "SMALLINT", "BIGINT",
+  "SPATIAL", "VARCHAR", "VIRTUAL", "DESCRIBE", "BEFORE", "COLUMN",
+  "CREATE", "DELETE", "DIRECT", "DOUBLE", "ESCAPE", "EXCEPT", "EXISTS",
+  "EXTRACT", "CAST", "FORMAT", "GLOBAL", "HAVING", "IMPORT", "INSERT",
+  "ISNULL", "OFFSET", "RENAME", "SCHEMA", "SELECT", "SORTED", "TABLES",
+  "UNLOAD", "UPDATE", "VALUES", "AFTER", "ALTER", "CROSS", "DELTA",
+  "FLOAT", "GROUP", "INDEX", "INNER", "LIMIT", "LOCAL", "MERGE", "MINUS",
+  "ORDER", "OVER", "OUTER", "RIGHT", "TABLE", "UNION", "USING", "WHERE",
+  "CALL", "CASE", "CHAR", "COPY", "DATE", "DATETIME", "DESC", "DROP",
+  "ELSE", "FILE", "FROM", "FULL", "HASH", "HINT", "INTO", "JOIN", "LEFT",
+  "LIKE", "LOAD", "LONG", "NULL", "PARTITION", "PLAN", "SHOW", "TEXT",
+  "THEN", "TIME", "VIEW", "WHEN", "WITH", "ADD", "ALL", "AND", "ASC",
+  "END", "FOR", "INT", "NOT", "OFF", "SET", "TOP", "AS", "BY", "IF", "IN",
+  "IS", "OF", "ON", "OR", "TO", "NO", "ARRAY", "CONCAT", "ILIKE", "SECOND",
+  "MINUTE", "HOUR", "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS",
+  "DAYS", "MONTHS", "YEARS", "INTERVAL", "TRUE", "FALSE", "BOOLEAN",
+  "TRANSACTION", "BEGIN", "COMMIT", "ROLLBACK", "NOWAIT", "SKIP", "LOCKED",
+  "SHARE", "RANGE", "ROWS", "GROUPS", "UNBOUNDED", "FOLLOWING",
+  "PRECEDING", "CURRENT_ROW", "UNIQUE", "PRIMARY", "FOREIGN", "KEY",
+  "REFERENCES", "INVALID", "'='", "EQUALS", "NOTEQUALS", "'<'", "'>'",
+  "LESS", "GREATER", "LESSEQ", "GREATEREQ", "NOTNULL", "'+'", "'-'", "'*'",
+  "'/'", "'%'", "'^'", "UMINUS", "'['", "']'", "'('", "')'", "'.'", "';'",
+  "','", "'?'", "$accept", "input", "statement_list", "statement",
+  "preparable_statement", "opt_hints", "hint_list", "hint",
+  "transaction_statement", "opt_transaction_keyword", "prepare_statement",
+  "prepare_target_query", "execute_statement", "import_statement",
+  "file_type", "file_path", "opt_import_export_options",
+  "import_export_options", "csv_option", "export_statement",
+  "show_statement", "create_statement", "opt_not_exists",
+  "table_elem_commalist", "table_elem", "column_def", "column_type",
+  "opt_time_precision", "opt_decimal_specification",
   "opt_column_constraints", "column_constraints", "column_constraint",
   "table_constraint", "references_spec", "drop_statement", "opt_exists",
   "alter_statement", "alter_action", "drop_action", "delete_statement",
@@ -887,122 +992,100 @@ static const char *const yytname[] =
   "with_description_list", "with_description", "join_clause",
   "opt_join_type", "join_condition", "opt_semicolon", "ident_commalist", YY_NULLPTR
 };
-#endif
 
-# ifdef YYPRINT
-/* YYTOKNUM[NUM] -- (External) token number corresponding to the
-   (internal) symbol number NUM (which must be that of a token).  */
-static const yytype_uint16 yytoknum[] =
+static const char *
+yysymbol_name (yysymbol_kind_t yysymbol)
 {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,   282,   283,   284,
-     285,   286,   287,   288,   289,   290,   291,   292,   293,   294,
-     295,   296,   297,   298,   299,   300,   301,   302,   303,   304,
-     305,   306,   307,   308,   309,   310,   311,   312,   313,   314,
-     315,   316,   317,   318,   319,   320,   321,   322,   323,   324,
-     325,   326,   327,   328,   329,   330,   331,   332,   333,   334,
-     335,   336,   337,   338,   339,   340,   341,   342,   343,   344,
-     345,   346,   347,   348,   349,   350,   351,   352,   353,   354,
-     355,   356,   357,   358,   359,   360,   361,   362,   363,   364,
-     365,   366,   367,   368,   369,   370,   371,   372,   373,   374,
-     375,   376,   377,   378,   379,   380,   381,   382,   383,   384,
-     385,   386,   387,   388,   389,   390,   391,   392,   393,   394,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     405,   406,   407,   408,   409,   410,   411,   412,   413,   414,
-     415,   416,   417,   418,   419,   420,   421,   422,   423,   424,
-     425,   426,   427,   428,    61,   429,   430,    60,    62,   431,
-     432,   433,   434,   435,    43,    45,    42,    47,    37,    94,
-     436,    91,    93,    40,    41,    46,    59,    44,    63
-};
-# endif
+  return yytname[yysymbol];
+}
+#endif
 
-#define YYPACT_NINF -529
+#define YYPACT_NINF (-508)
 
-#define yypact_value_is_default(Yystate) \
-  (!!((Yystate) == (-529)))
+#define yypact_value_is_default(Yyn) \
+  ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF -355
+#define YYTABLE_NINF (-355)
 
-#define yytable_value_is_error(Yytable_value) \
-  (!!((Yytable_value) == (-355)))
+#define yytable_value_is_error(Yyn) \
+  ((Yyn) == YYTABLE_NINF)
 
-  /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-     STATE-NUM.  */
+/* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+   STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     595,    27,    65,    71,    99,    65,   113,    83,   137,   140,
-      65,   190,    21,   195,    37,   292,   120,   120,   120,   287,
-     103,  -529,   221,  -529,   221,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,   -26,  -529,   342,
-     166,  -529,   183,   313,  -529,   251,   251,   251,    65,   415,
-      65,   298,  -529,   297,   -26,   293,   -37,   297,   297,   297,
-      65,  -529,   309,   267,  -529,  -529,  -529,  -529,  -529,  -529,
-     578,  -529,   369,  -529,  -529,   350,   224,  -529,    35,  -529,
-     479,   353,   486,   374,   494,    65,    65,   418,  -529,   413,
-     314,   505,   464,    65,   315,   317,   508,   508,   508,   519,
-      65,    65,  -529,   332,   292,  -529,   333,   521,   518,  -529,
-    -529,  -529,   -26,   420,   410,   -26,    15,  -529,  -529,  -529,
-     707,   344,   535,  -529,   536,  -529,  -529,    45,  -529,   349,
-     347,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,   500,  -529,   416,   -15,   314,   363,
-    -529,   508,   547,   198,   380,   -38,  -529,  -529,   466,  -529,
-    -529,  -529,   -75,   -75,   -75,  -529,  -529,  -529,  -529,  -529,
-     552,  -529,  -529,  -529,   363,   483,  -529,  -529,   224,  -529,
-    -529,   363,   483,   363,   151,   443,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,   200,  -529,   248,  -529,  -529,  -529,   353,  -529,    65,
-     561,   454,    19,   441,   129,   375,   381,   382,   244,   367,
-     396,    59,  -529,   335,    69,   395,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,   490,  -529,    38,   397,  -529,   363,   505,  -529,
-     550,  -529,  -529,   398,   193,  -529,   418,  -529,   402,   180,
-    -529,   502,   400,  -529,    44,    15,   -26,   401,  -529,   -31,
-      15,    69,   544,    68,   106,  -529,   443,  -529,   476,  -529,
-    -529,   411,   510,  -529,   668,   414,   434,   436,   205,  -529,
-    -529,  -529,   454,     9,    36,   551,   248,   363,   363,   268,
-     -43,   419,    59,   609,   363,   217,   417,   -23,   363,   363,
-      59,  -529,    59,    24,   421,   -27,    59,    59,    59,    59,
-      59,    59,    59,    59,    59,    59,    59,    59,    59,    59,
-      59,   521,    65,  -529,   610,   353,    69,  -529,   297,   193,
-     612,   616,   415,   617,   222,  -529,  -529,   353,  -529,   552,
-      22,   418,  -529,   363,  -529,   620,  -529,  -529,  -529,  -529,
-     363,  -529,  -529,   621,   443,   363,   363,  -529,   455,  -529,
-     465,   -70,  -529,   668,   547,   508,  -529,  -529,   432,  -529,
-     435,  -529,  -529,   440,  -529,  -529,   444,  -529,  -529,  -529,
-    -529,   445,  -529,  -529,   139,   547,   448,   449,  -529,    19,
-    -529,   557,   363,   451,  -529,   452,   555,   -13,   201,   167,
-     363,   363,  -529,   551,   528,   119,  -529,  -529,  -529,   529,
-     538,   638,    59,   457,   335,  -529,   548,   460,   638,   638,
-     638,   638,   653,   653,   653,   653,   217,   217,    92,    92,
-      92,   -96,   461,  -529,  -529,   228,   652,   234,  -529,  -529,
-    -529,  -529,  -529,   227,   239,  -529,   454,  -529,    87,  -529,
-     459,  -529,    39,  -529,   589,  -529,  -529,  -529,   658,  -529,
-    -529,    69,    69,   600,  -529,   547,  -529,   504,  -529,   472,
-     241,  -529,   662,   664,  -529,   665,   666,   667,  -529,  -529,
-     572,  -529,   506,    65,  -529,   139,  -529,  -529,   246,   547,
-     547,  -529,   484,  -529,   253,    14,  -529,   363,   668,   363,
-     363,  -529,   182,   211,   487,  -529,    59,   638,   335,   489,
-     264,  -529,  -529,  -529,  -529,  -529,   676,   415,  -529,  -529,
-     493,   585,  -529,  -529,  -529,   611,   618,   626,   591,    22,
-     685,  -529,  -529,  -529,   568,  -529,  -529,  -529,   -77,  -529,
-    -529,  -529,   501,   265,   511,   512,   515,  -529,  -529,   314,
-    -529,  -529,  -529,   266,   271,   613,   557,   557,   363,   121,
-     523,    69,   203,  -529,   363,  -529,   609,   527,   278,  -529,
-    -529,  -529,  -529,    39,    22,  -529,  -529,  -529,    22,   247,
-     539,   363,  -529,  -529,  -529,   722,  -529,  -529,  -529,  -529,
-    -529,   558,   614,   483,  -529,  -529,   279,  -529,  -529,  -529,
-      69,  -529,  -529,  -529,  -529,   463,   547,   -22,   543,  -529,
-     363,   330,   557,   549,   363,   284,   363,  -529,  -529,   400,
-    -529,  -529,  -529,   553,    61,  -529,   547,    69,  -529,  -529,
-      69,  -529,    25,    55,   188,  -529,  -529,   286,  -529,  -529,
-     625,  -529,  -529,  -529,    55,  -529
+     635,    65,   103,   113,   117,   103,   168,   122,   130,    55,
+     103,   146,    14,   195,    36,   287,   114,   114,   114,   305,
+     110,  -508,   219,  -508,   219,  -508,  -508,  -508,  -508,  -508,
+    -508,  -508,  -508,  -508,  -508,  -508,  -508,   -11,  -508,   336,
+     161,  -508,   153,   285,  -508,   263,   263,   263,   103,   402,
+     103,   291,  -508,   281,   -11,   277,   128,   281,   281,   281,
+     103,  -508,   308,   214,  -508,  -508,  -508,  -508,  -508,  -508,
+     538,  -508,   328,  -508,  -508,   306,   250,  -508,   243,  -508,
+     436,    59,   437,   322,   465,   103,   103,   365,  -508,   381,
+     282,   487,   450,   103,   309,   310,   499,   499,   499,   510,
+     103,   103,  -508,   324,   287,  -508,   326,   515,   511,  -508,
+    -508,  -508,   -11,   407,   399,   -11,   215,  -508,  -508,  -508,
+     466,   332,   523,  -508,   524,  -508,  -508,    39,  -508,   335,
+     333,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,
+    -508,  -508,  -508,  -508,   486,  -508,   404,   -17,   282,   330,
+    -508,   499,   531,   298,   361,   -33,  -508,  -508,   446,  -508,
+    -508,  -508,   -24,   -24,   -24,  -508,  -508,  -508,  -508,  -508,
+     536,  -508,  -508,  -508,   330,   464,  -508,  -508,   250,  -508,
+    -508,   330,   464,   330,   151,   422,  -508,  -508,  -508,  -508,
+    -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,
+    -508,    81,  -508,   369,  -508,  -508,  -508,    59,  -508,   103,
+     539,   430,    32,   419,   -15,   353,   357,   360,   237,   398,
+     364,   467,  -508,   307,    -7,   445,  -508,  -508,  -508,  -508,
+    -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,
+    -508,  -508,   459,  -508,    52,   367,  -508,   330,   487,  -508,
+     519,  -508,  -508,   368,    54,  -508,   365,  -508,   370,   211,
+    -508,   469,   371,  -508,    50,   215,   -11,   372,  -508,   210,
+     215,    -7,   504,    -6,    56,  -508,   422,  -508,   442,  -508,
+    -508,   374,   479,  -508,   648,   382,   405,   408,   218,  -508,
+    -508,  -508,   430,    10,    27,   525,   369,   330,   330,   -37,
+     228,   392,   467,   584,   330,   193,   394,   119,   330,   330,
+     467,  -508,   467,   -35,   393,   177,   467,   467,   467,   467,
+     467,   467,   467,   467,   467,   467,   467,   467,   467,   467,
+     467,   515,   103,  -508,   590,    59,    -7,  -508,   281,    54,
+     591,   592,   402,   594,   224,  -508,  -508,    59,  -508,   536,
+      21,   365,  -508,   330,  -508,   596,  -508,  -508,  -508,  -508,
+     330,  -508,  -508,   598,   422,   330,   330,  -508,   444,  -508,
+     433,    37,  -508,   648,   531,   499,  -508,  -508,   432,  -508,
+     447,  -508,  -508,   449,  -508,  -508,   452,  -508,  -508,  -508,
+    -508,   453,  -508,  -508,   200,   531,   454,   455,  -508,    32,
+    -508,   559,   330,   458,  -508,   460,   545,   227,   183,   256,
+     330,   330,  -508,   525,   543,   173,  -508,  -508,  -508,   540,
+     628,   649,   467,   470,   307,  -508,   554,   448,   649,   649,
+     649,   649,   664,   664,   664,   664,   193,   193,    84,    84,
+      84,   -80,   472,  -508,  -508,   231,   657,   240,  -508,  -508,
+    -508,  -508,  -508,    64,   242,  -508,   430,  -508,     2,  -508,
+     471,  -508,    51,  -508,   599,  -508,  -508,  -508,   660,  -508,
+    -508,    -7,    -7,   605,  -508,   531,  -508,   514,  -508,   475,
+     252,  -508,   665,   678,  -508,   680,   683,   684,  -508,  -508,
+     588,  -508,   526,   103,  -508,   200,  -508,  -508,   254,   531,
+     531,  -508,   502,  -508,   258,    28,  -508,   330,   648,   330,
+     330,  -508,   268,   235,   506,  -508,   467,   649,   307,   507,
+     265,  -508,  -508,  -508,  -508,  -508,   695,   402,  -508,  -508,
+     509,   607,  -508,  -508,  -508,   629,   630,   631,   611,    21,
+     708,  -508,  -508,  -508,   586,  -508,  -508,  -508,    71,  -508,
+    -508,  -508,   520,   266,   522,   528,   529,  -508,  -508,   282,
+    -508,  -508,  -508,   280,   289,   609,   559,   559,   330,   121,
+     530,    -7,   275,  -508,   330,  -508,   584,   532,   290,  -508,
+    -508,  -508,  -508,    51,    21,  -508,  -508,  -508,    21,    93,
+     534,   330,  -508,  -508,  -508,   713,  -508,  -508,  -508,  -508,
+    -508,   557,   606,   464,  -508,  -508,   294,  -508,  -508,  -508,
+      -7,  -508,  -508,  -508,  -508,   178,   531,   -12,   544,  -508,
+     330,   234,   559,   537,   330,   300,   330,  -508,  -508,   371,
+    -508,  -508,  -508,   546,    26,  -508,   531,    -7,  -508,  -508,
+      -7,  -508,  -105,    19,   288,  -508,  -508,   302,  -508,  -508,
+     617,  -508,  -508,  -508,    19,  -508
 };
 
-  /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-     Performed when YYTABLE does not specify something else to do.  Zero
-     means the default is an error.  */
-static const yytype_uint16 yydefact[] =
+/* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+   Performed when YYTABLE does not specify something else to do.  Zero
+   means the default is an error.  */
+static const yytype_int16 yydefact[] =
 {
      335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,    30,    30,    30,     0,
@@ -1072,29 +1155,29 @@ static const yytype_uint16 yydefact[] =
        0,   254,   252,   342,     0,   247
 };
 
-  /* YYPGOTO[NTERM-NUM].  */
+/* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
-    -529,  -529,  -529,   673,  -529,   720,  -529,   399,  -529,   428,
-    -529,  -529,  -529,  -529,  -325,   -79,   290,   422,   296,  -529,
-    -529,  -529,   453,  -529,   354,  -529,  -338,  -529,  -529,  -529,
-    -529,   260,  -529,  -429,  -529,   -45,  -529,  -529,  -529,  -529,
-    -529,  -529,  -142,  -529,  -529,   514,  -202,   -87,  -529,   204,
-     -49,    -5,  -529,  -529,   -85,  -278,  -529,  -529,  -529,  -139,
-    -529,  -529,  -171,  -529,   403,  -529,  -529,  -529,   127,  -297,
-    -529,   -67,   559,   563,   405,  -147,  -188,  -529,  -529,  -529,
-    -529,  -529,  -529,   469,  -529,  -529,  -529,  -514,  -529,  -529,
-    -529,  -528,  -529,  -529,  -148,  -529,  -529,  -529,  -529,  -529,
-    -529,   -58,  -529,  -529,   632,  -106,  -529,  -529,   633,  -529,
-    -529,  -496,   181,  -529,  -529,  -529,    -2,  -529,  -529,   186,
-     509,  -529,   406,  -529,   496,  -529,   229,  -529,  -529,  -529,
-     675,  -529,  -529,  -529,  -529,  -354
+    -508,  -508,  -508,   668,  -508,   711,  -508,   391,  -508,   403,
+    -508,  -508,  -508,  -508,  -321,   -79,   154,   406,   293,  -508,
+    -508,  -508,   420,  -508,   344,  -508,  -335,  -508,  -508,  -508,
+    -508,   257,  -508,  -453,  -508,   -45,  -508,  -508,  -508,  -508,
+    -508,  -508,  -142,  -508,  -508,   505,  -202,   -88,  -508,    57,
+     -49,   -26,  -508,  -508,   -86,  -278,  -508,  -508,  -508,  -139,
+    -508,  -508,  -171,  -508,   387,  -508,  -508,  -508,   129,  -297,
+    -508,  -265,   547,   574,   424,  -147,  -188,  -508,  -508,  -508,
+    -508,  -508,  -508,   456,  -508,  -508,  -508,  -507,  -508,  -508,
+    -508,  -346,  -508,  -508,  -152,  -508,  -508,  -508,  -508,  -508,
+    -508,   -58,  -508,  -508,   652,  -106,  -508,  -508,   653,  -508,
+    -508,  -465,   197,  -508,  -508,  -508,    -2,  -508,  -508,   199,
+     533,  -508,   423,  -508,   508,  -508,   241,  -508,  -508,  -508,
+     679,  -508,  -508,  -508,  -508,  -354
 };
 
-  /* YYDEFGOTO[NTERM-NUM].  */
+/* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int16 yydefgoto[] =
 {
-      -1,    19,    20,    21,    22,    73,   259,   260,    23,    66,
+       0,    19,    20,    21,    22,    73,   259,   260,    23,    66,
       24,   143,    25,    26,    89,   162,   255,   344,   345,    27,
       28,    29,    84,   288,   289,   290,   394,   488,   484,   494,
      495,   496,   291,   497,    30,    93,    31,   251,   252,    32,
@@ -1110,304 +1193,304 @@ static const yytype_int16 yydefgoto[] =
       64,   463,   538,   638,    71,   244
 };
 
-  /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-     positive, shift that token.  If negative, reduce the rule whose
-     number is the opposite.  If YYTABLE_NINF, syntax error.  */
+/* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+   positive, shift that token.  If negative, reduce the rule whose
+   number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int16 yytable[] =
 {
       41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
-      56,   270,    99,   100,   101,   402,   249,   450,   163,   164,
-     480,   173,   284,   133,    40,    40,   173,   178,   182,   626,
-     178,   303,    75,   305,   269,   479,   271,   273,   253,   403,
-     316,   498,   354,   589,   109,   149,    87,   354,    90,   410,
-     119,   120,   604,   605,    39,   279,    60,    97,   102,   361,
-     475,   642,   214,   118,   119,   120,   561,   642,    40,   411,
-     183,   299,   242,   115,    42,   412,   307,   425,   643,   210,
-     110,   476,   477,   147,   148,   308,   362,   184,   476,   477,
-     400,   158,   615,   308,   426,   331,    98,    61,   166,   167,
-     336,   309,    43,   308,   246,   504,   216,   217,   635,   309,
-     211,   114,   508,   531,   303,   650,   111,   346,   254,   309,
-     334,   548,   420,   366,   421,   422,   655,   520,   427,   428,
+      56,   270,    99,   100,   101,   402,   249,    40,   163,   164,
+     480,   450,   173,   133,    40,   642,   178,   182,   531,   178,
+     403,   303,   642,   305,   269,   284,   271,   273,   479,   626,
+     173,   498,   561,   643,   119,   120,    87,    75,    90,   366,
+     149,   279,   115,   354,   354,    60,   316,   340,   102,   604,
+     605,   648,   649,   118,   119,   120,   422,   340,   532,    55,
+     445,   299,   242,   533,   589,   298,   307,   210,   341,   308,
+     534,   535,   454,   147,   148,   118,   119,   120,   526,   253,
+     400,   158,    39,   423,    76,   309,    61,   536,   166,   167,
+     336,  -352,   537,   342,   246,   504,    40,   121,   211,   308,
+     308,    94,   331,   527,   303,   635,    42,   346,   367,   531,
+      43,   548,   420,   615,   421,   309,   309,   520,   427,   428,
      429,   430,   431,   432,   433,   434,   435,   436,   437,   438,
-     439,   440,   441,   133,   218,   563,   564,   122,   406,   133,
-     407,   408,   423,   532,   214,   118,   119,   120,   533,   248,
-     308,   418,   419,   123,   540,   534,   535,    54,   367,   355,
-     570,   417,   619,   266,   306,   353,   309,    48,   212,   359,
-     302,   178,   536,    45,   308,   308,  -352,   537,   285,   286,
-     287,   648,   649,    46,   220,   124,   340,   215,   216,   217,
-     309,   309,   582,   401,   118,   119,   120,   281,   567,   124,
-     125,   126,   464,   269,    54,   456,    55,   341,   471,   472,
-     644,   578,   404,   645,    47,   442,   644,   568,   316,   645,
-     340,    49,   333,   109,   517,   334,   218,   308,    50,   122,
-     368,    76,   342,   489,   221,   222,   405,   214,   118,   119,
-     120,   526,   223,   309,   530,   123,    75,   128,    94,   510,
-     490,   245,   625,   512,   513,    57,   272,   369,   445,   110,
-      53,   606,   219,   531,    65,    58,   527,   133,   370,   411,
-     454,   330,   647,   331,  -305,   511,   220,    69,   122,   133,
-     215,   216,   217,   446,   617,    62,   481,   343,   308,    70,
-     573,   124,   125,   126,   123,   111,    59,   168,   491,   492,
-     509,   515,   493,   532,   309,   607,   353,   308,   533,   308,
-     574,   609,   293,   629,   294,   534,   535,   308,   576,   218,
-     443,   343,   122,   309,    72,   309,   221,   222,   214,   118,
-     119,   120,   536,   309,   223,    79,  -352,   537,   123,   128,
-     124,   125,   126,   316,   651,   652,   298,   118,   119,   120,
-     569,    80,   571,   572,   514,   219,   214,   118,   119,   120,
-     214,   118,   119,   120,   348,   519,    81,   349,    83,   220,
-     298,   215,   216,   217,   308,   127,   186,   187,   188,   189,
-     190,   191,   358,    75,   124,   125,   126,   364,   128,   398,
-     309,   121,   399,   327,   328,   329,   330,    82,   331,   215,
-     216,   217,   310,   301,   216,   217,   452,   599,    88,   453,
-     218,    91,   523,   122,    92,   207,    96,   610,   525,   221,
-     222,   453,   621,   529,   103,   551,   207,   223,   334,   123,
-     562,   122,   128,   334,  -306,    67,    68,   566,   218,   311,
-     353,   122,   218,   256,   257,   122,   219,   123,   580,   594,
-     600,   353,   595,   334,   104,   601,   106,   123,   334,   577,
-     220,   123,   612,   622,   107,   353,   353,   637,   639,   640,
-     653,   334,   117,   334,   219,   124,   125,   126,   302,   531,
-     142,   559,   630,   631,   632,   144,   312,   145,   220,    85,
-      86,   149,   220,   124,   125,   126,   151,   152,   154,   159,
-     157,   160,   161,   124,   125,   126,   313,   124,   125,   126,
-     221,   222,   165,   314,   315,    54,   170,   171,   223,   532,
-     173,   316,   317,   128,   533,   179,   181,   201,   127,   202,
-     203,   534,   535,   206,   207,   623,   208,   209,   221,   222,
-     243,   128,   221,   222,   247,   258,   223,   250,   536,   114,
-     223,   128,   274,   537,   282,   128,   292,    15,   295,   318,
-     319,   320,   321,   322,   296,   297,   323,   324,  -354,   325,
-     326,   327,   328,   329,   330,     1,   331,   304,   332,   338,
-     335,   339,   311,     2,   624,   347,   350,   353,   360,   365,
-       3,   373,     1,   375,   374,     4,   396,   395,   397,    75,
-       2,   416,   413,   444,   424,     5,   448,     3,     6,     7,
-     449,   451,     4,   466,   468,   482,   474,   473,   483,   422,
-       8,     9,     5,   485,   502,     6,     7,   486,   487,   312,
-      10,   499,   500,    11,   505,   308,   506,     8,     9,   507,
-     518,   331,   521,   522,   516,   524,   539,    10,   544,   414,
-      11,   546,   547,   311,   549,    12,   550,   315,   552,    13,
-     553,   554,   555,   556,   316,   317,   557,   565,   558,   376,
-     581,   575,    12,   579,   584,    14,    13,   583,   590,   585,
-     588,    15,   311,   377,   591,   593,   586,   378,   379,   380,
-     381,   382,    14,   383,   587,   596,   597,   311,    15,   598,
-     312,   384,   318,   319,   320,   321,   322,   608,   602,   323,
-     324,   611,   325,   326,   327,   328,   329,   330,   618,   331,
-     414,   493,   616,    16,    17,    18,   385,   628,   315,  -355,
-     620,   654,   636,   105,    74,   316,   317,   641,   455,   528,
-      16,    17,    18,   501,   386,   560,   387,   388,   465,   204,
-     205,   447,   337,   467,   278,   614,   280,   315,   409,   613,
-     470,   389,   372,   356,   316,  -355,   390,   592,   391,   169,
-       0,     0,   315,   318,   319,   320,   321,   322,   392,   316,
+     439,   440,   441,   133,   406,   563,   564,   122,   619,   133,
+     407,   408,   266,    50,   214,   118,   119,   120,   343,   532,
+     168,   418,   419,   123,   533,   248,   308,   475,   343,   122,
+     254,   534,   535,   570,   306,   355,   540,   212,   359,   293,
+     178,   294,   309,    54,   644,   123,   353,   645,   536,   124,
+     368,   644,  -352,   537,   645,   476,   477,   215,   216,   217,
+    -305,   285,   286,   287,   531,   401,   582,   281,    54,   124,
+     125,   126,   464,   269,   404,   456,    48,   369,   471,   472,
+     316,   578,    97,   567,    49,   442,    53,   568,   370,   476,
+     477,   124,   125,   126,   517,   308,   218,   308,    45,   122,
+     214,   118,   119,   120,   532,   127,   405,   333,    46,   533,
+     334,   309,   109,   309,   530,   123,   534,   535,   128,   109,
+     623,    98,   625,   512,   513,    57,   272,   127,    65,   334,
+     183,   606,   219,   536,   330,    58,   331,   133,   537,    47,
+     128,   425,   647,   215,   216,   217,   220,   184,   110,   133,
+      62,  -306,   509,   446,   617,   110,   481,   650,   426,   308,
+     361,   124,   125,   126,   489,    69,    59,    70,   655,   624,
+     214,   118,   119,   120,   417,   309,   607,   256,   257,   114,
+     410,   490,   218,   629,   111,   122,   308,   362,   576,   316,
+     443,   111,    72,   214,   118,   119,   120,   221,   222,    79,
+     411,   123,   309,   308,   574,   223,   412,    81,   510,   298,
+     128,   308,   508,   215,   216,   217,    75,    80,   219,   309,
+     569,   245,   571,   572,   514,    75,   515,   309,   411,   491,
+     492,   353,   220,   493,   511,   519,   215,   216,   217,    82,
+     327,   328,   329,   330,   308,   331,   573,   124,   125,   126,
+      83,   308,   218,   609,   358,   122,   630,   631,   632,   364,
+     309,   214,   118,   119,   120,    88,   348,   309,    92,   349,
+      96,   123,   104,   398,    91,   218,   399,   599,   122,   452,
+      67,    68,   453,   221,   222,   106,   523,   610,   219,   207,
+     107,   223,   621,   103,   123,   525,   128,   529,   453,   117,
+     207,   142,   220,   144,   301,   216,   217,   551,   149,   562,
+     334,   219,   334,   566,   651,   652,   353,   124,   125,   126,
+     580,   594,   310,   353,   595,   220,    85,    86,   145,   577,
+     214,   118,   119,   120,   151,   600,   152,   637,   334,   640,
+     124,   125,   126,   218,   601,   612,   122,   334,   353,   622,
+     154,   559,   353,   221,   222,   639,   157,   653,   334,   311,
+     334,   223,   123,   161,   159,   160,   128,   186,   187,   188,
+     189,   190,   191,   165,   216,   217,   221,   222,    54,   302,
+     170,   171,   179,   173,   223,   181,   201,   202,   203,   128,
+     206,   207,   208,   220,   243,   209,   247,   250,  -354,   258,
+     114,   274,   282,    15,   292,     1,   312,   295,   124,   125,
+     126,   296,   218,     2,   297,   122,   304,   332,   338,   365,
+       3,   335,   339,   350,   347,     4,   313,   373,   374,   353,
+     360,   123,   375,   314,   315,     5,   395,   396,     6,     7,
+     397,   316,   317,    75,   221,   222,   413,   424,   302,   416,
+       8,     9,   223,   444,   474,   448,   449,   128,   451,   466,
+      10,   468,   220,    11,   186,   187,   188,   189,   190,   191,
+     192,   193,   194,   195,   196,   197,   473,   124,   125,   126,
+     318,   319,   320,   321,   322,    12,   482,   323,   324,    13,
+     325,   326,   327,   328,   329,   330,   502,   331,   311,   507,
+     331,   483,     1,   485,   422,    14,   486,   487,   499,   500,
+       2,    15,   505,   221,   222,   506,   308,     3,   521,   376,
+     524,   223,     4,   546,   518,   522,   128,   547,   544,   539,
+     550,   552,     5,   377,   549,     6,     7,   378,   379,   380,
+     381,   382,   311,   383,   553,   312,   554,     8,     9,   555,
+     556,   384,   557,    16,    17,    18,   565,    10,   558,   581,
+      11,   575,   579,   311,   583,   414,   584,   585,   586,   587,
+     588,   590,   591,   315,   602,   593,   385,   596,   311,   618,
+     316,   317,    12,   597,   598,   608,    13,   611,   616,   312,
+     493,   636,   620,   654,   386,    74,   387,   388,   105,   628,
+     455,   641,    14,   501,   516,   447,   528,   467,    15,   414,
+    -355,   389,   560,   337,   280,   409,   390,   315,   391,   318,
+     319,   320,   321,   322,   316,   317,   323,   324,   392,   325,
+     326,   327,   328,   329,   330,   278,   331,   465,   315,   204,
+     205,   614,   613,   169,   372,   316,  -355,   470,     0,   592,
+      16,    17,    18,   315,     0,     0,     0,   356,     0,     0,
+     316,   393,     0,   318,   319,   320,   321,   322,     0,     0,
      323,   324,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -355,  -355,  -355,   321,   322,     0,     0,   323,
-     324,   393,   325,   326,   327,   328,   329,   330,     0,   331,
-    -355,  -355,     0,     0,  -355,  -355,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,   186,   187,   188,   189,   190,
-     191,   192,   193,   194,   195,   196,   197
+     331,     0,     0,     0,  -355,  -355,  -355,   321,   322,     0,
+       0,   323,   324,     0,   325,   326,   327,   328,   329,   330,
+       0,   331,  -355,  -355,     0,     0,  -355,  -355,     0,   325,
+     326,   327,   328,   329,   330,     0,   331
 };
 
 static const yytype_int16 yycheck[] =
 {
        2,   107,   149,     5,   175,    54,   148,   304,    10,   211,
-      12,   182,    57,    58,    59,   293,   155,   342,    97,    98,
-     374,    12,     3,    81,     3,     3,    12,   112,   115,    51,
-     115,   219,    58,   221,   181,   373,   183,   184,   113,     3,
-     136,   395,     3,   539,     9,    83,    48,     3,    50,    92,
-       5,     6,   566,   567,    27,   203,    19,    94,    60,    90,
-     130,     6,     3,     4,     5,     6,   495,     6,     3,   112,
-      55,   218,   151,    78,     3,   118,   223,   104,    17,    94,
-      45,   158,   159,    85,    86,   116,   117,    72,   158,   159,
-     292,    93,   588,   116,   121,   191,   133,    60,   100,   101,
-     247,   132,     3,   116,   153,   402,    47,    48,   622,   132,
-     125,    76,   125,    26,   302,   643,    81,   256,   193,   132,
-     197,   475,   310,    55,   312,   101,   654,   424,   316,   317,
+      12,   182,    57,    58,    59,   293,   155,     3,    97,    98,
+     374,   342,    12,    81,     3,     6,   112,   115,    26,   115,
+       3,   219,     6,   221,   181,     3,   183,   184,   373,    51,
+      12,   395,   495,    17,     5,     6,    48,    58,    50,    55,
+      83,   203,    78,     3,     3,    19,   136,     3,    60,   566,
+     567,   166,   167,     4,     5,     6,   101,     3,    66,    12,
+     335,   218,   151,    71,   539,   112,   223,    94,    24,   116,
+      78,    79,   347,    85,    86,     4,     5,     6,    24,   113,
+     292,    93,    27,   128,    37,   132,    60,    95,   100,   101,
+     247,    99,   100,    49,   153,   402,     3,    48,   125,   116,
+     116,    54,   192,    49,   302,   622,     3,   256,    62,    26,
+       3,   475,   310,   588,   312,   132,   132,   424,   316,   317,
      318,   319,   320,   321,   322,   323,   324,   325,   326,   327,
-     328,   329,   330,   201,    85,   499,   500,    88,   296,   207,
-     297,   298,   128,    66,     3,     4,     5,     6,    71,   197,
-     116,   308,   309,   104,   125,    78,    79,   193,    62,   125,
-     508,   194,   601,   178,   223,   197,   132,    94,   193,   266,
-     121,   266,    95,    70,   116,   116,    99,   100,   169,   170,
-     171,   166,   167,    80,   135,   150,     3,    46,    47,    48,
-     132,   132,   527,   194,     4,     5,     6,   209,   194,   150,
-     151,   152,   351,   360,   193,   193,    12,    24,   365,   366,
-     165,   518,   186,   168,   111,   331,   165,   505,   136,   168,
-       3,    94,   194,     9,   422,   197,    85,   116,    98,    88,
-     134,    37,    49,   104,   185,   186,   295,     3,     4,     5,
-       6,    24,   193,   132,   456,   104,    58,   198,    54,    92,
-     121,    63,   616,   410,   411,    70,   115,   161,   335,    45,
-      80,   568,   121,    26,   154,    80,    49,   335,   172,   112,
-     347,   189,   636,   191,   197,   118,   135,     0,    88,   347,
-      46,    47,    48,   338,   591,     3,   375,   104,   116,   196,
-     118,   150,   151,   152,   104,    81,   111,   103,   169,   170,
-     109,   192,   173,    66,   132,   194,   197,   116,    71,   116,
-     109,   118,   193,   620,   195,    78,    79,   116,   516,    85,
-     332,   104,    88,   132,   113,   132,   185,   186,     3,     4,
-       5,     6,    95,   132,   193,     3,    99,   100,   104,   198,
-     150,   151,   152,   136,   166,   167,   112,     4,     5,     6,
-     507,   195,   509,   510,   413,   121,     3,     4,     5,     6,
-       3,     4,     5,     6,   194,   424,   193,   197,   127,   135,
-     112,    46,    47,    48,   116,   185,   138,   139,   140,   141,
-     142,   143,   265,    58,   150,   151,   152,   270,   198,   194,
-     132,    48,   197,   186,   187,   188,   189,    94,   191,    46,
-      47,    48,    17,    46,    47,    48,   194,   559,     3,   197,
-      85,   123,   194,    88,   127,   197,   133,   574,   194,   185,
-     186,   197,   603,   194,   125,   194,   197,   193,   197,   104,
-     194,    88,   198,   197,   197,    17,    18,   194,    85,    54,
-     197,    88,    85,   163,   164,    88,   121,   104,   194,   194,
-     194,   197,   197,   197,   197,   194,    97,   104,   197,   518,
-     135,   104,   194,   194,   124,   197,   197,   624,   194,   626,
-     194,   197,     3,   197,   121,   150,   151,   152,   121,    26,
-       4,   493,   162,   163,   164,   121,   101,     3,   135,    46,
-      47,    83,   135,   150,   151,   152,    93,   193,     3,   194,
-      46,   194,     4,   150,   151,   152,   121,   150,   151,   152,
-     185,   186,     3,   128,   129,   193,   193,     6,   193,    66,
-      12,   136,   137,   198,    71,   115,   126,   193,   185,     4,
-       4,    78,    79,   194,   197,    82,    46,   131,   185,   186,
-       3,   198,   185,   186,   174,     3,   193,    91,    95,    76,
-     193,   198,   119,   100,     3,   198,   125,   113,   193,   174,
-     175,   176,   177,   178,   193,   193,   181,   182,     0,   184,
-     185,   186,   187,   188,   189,     7,   191,   191,    98,    39,
-     193,   193,    54,    15,   131,   193,    94,   197,   197,    55,
-      22,   125,     7,    93,   193,    27,   172,   193,   172,    58,
-      15,   194,   193,     3,   193,    37,     4,    22,    40,    41,
-       4,     4,    27,     3,     3,   193,   161,   172,   193,   101,
-      52,    53,    37,   193,    77,    40,    41,   193,   193,   101,
-      62,   193,   193,    65,   193,   116,   194,    52,    53,    94,
-     193,   191,   104,   192,   116,     3,   197,    62,    69,   121,
-      65,     3,    62,    54,   160,    87,   194,   129,     6,    91,
-       6,     6,     6,     6,   136,   137,   104,   193,   172,    11,
-       4,   194,    87,   194,    99,   107,    91,   194,     3,    78,
-      99,   113,    54,    25,   126,   194,    78,    29,    30,    31,
-      32,    33,   107,    35,    78,   194,   194,    54,   113,   194,
-     101,    43,   174,   175,   176,   177,   178,   194,   105,   181,
-     182,   194,   184,   185,   186,   187,   188,   189,     6,   191,
-     121,   173,   193,   155,   156,   157,    68,   194,   129,   101,
-     126,   116,   193,    70,    24,   136,   137,   194,   349,   453,
-     155,   156,   157,   399,    86,   495,    88,    89,   353,   127,
-     127,   339,   248,   360,   201,   584,   207,   129,   299,   583,
-     364,   103,   276,   264,   136,   137,   108,   548,   110,   104,
-      -1,    -1,   129,   174,   175,   176,   177,   178,   120,   136,
-     181,   182,    -1,   184,   185,   186,   187,   188,   189,    -1,
-     191,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   174,   175,   176,   177,   178,    -1,    -1,   181,
-     182,   153,   184,   185,   186,   187,   188,   189,    -1,   191,
-     177,   178,    -1,    -1,   181,   182,    -1,   184,   185,   186,
-     187,   188,   189,    -1,   191,   138,   139,   140,   141,   142,
-     143,   144,   145,   146,   147,   148,   149
+     328,   329,   330,   201,   296,   499,   500,    88,   601,   207,
+     297,   298,   178,    98,     3,     4,     5,     6,   104,    66,
+     103,   308,   309,   104,    71,   198,   116,   130,   104,    88,
+     194,    78,    79,   508,   223,   125,   125,   194,   266,   194,
+     266,   196,   132,   194,   165,   104,   198,   168,    95,   150,
+     134,   165,    99,   100,   168,   158,   159,    46,    47,    48,
+     198,   169,   170,   171,    26,   195,   527,   209,   194,   150,
+     151,   152,   351,   360,   187,   194,    94,   161,   365,   366,
+     136,   518,    94,   195,    94,   331,    80,   505,   172,   158,
+     159,   150,   151,   152,   422,   116,    85,   116,    70,    88,
+       3,     4,     5,     6,    66,   186,   295,   195,    80,    71,
+     198,   132,     9,   132,   456,   104,    78,    79,   199,     9,
+      82,   133,   616,   410,   411,    70,   115,   186,   154,   198,
+      55,   568,   121,    95,   190,    80,   192,   335,   100,   111,
+     199,   104,   636,    46,    47,    48,   135,    72,    45,   347,
+       3,   198,   109,   338,   591,    45,   375,   643,   121,   116,
+      90,   150,   151,   152,   104,     0,   111,   197,   654,   131,
+       3,     4,     5,     6,   195,   132,   195,   163,   164,    76,
+      92,   121,    85,   620,    81,    88,   116,   117,   516,   136,
+     332,    81,   113,     3,     4,     5,     6,   186,   187,     3,
+     112,   104,   132,   116,   109,   194,   118,   194,    92,   112,
+     199,   116,   125,    46,    47,    48,    58,   196,   121,   132,
+     507,    63,   509,   510,   413,    58,   193,   132,   112,   169,
+     170,   198,   135,   173,   118,   424,    46,    47,    48,    94,
+     187,   188,   189,   190,   116,   192,   118,   150,   151,   152,
+     127,   116,    85,   118,   265,    88,   162,   163,   164,   270,
+     132,     3,     4,     5,     6,     3,   195,   132,   127,   198,
+     133,   104,   198,   195,   123,    85,   198,   559,    88,   195,
+      17,    18,   198,   186,   187,    97,   195,   574,   121,   198,
+     124,   194,   603,   125,   104,   195,   199,   195,   198,     3,
+     198,     4,   135,   121,    46,    47,    48,   195,    83,   195,
+     198,   121,   198,   195,   166,   167,   198,   150,   151,   152,
+     195,   195,    17,   198,   198,   135,    46,    47,     3,   518,
+       3,     4,     5,     6,    93,   195,   194,   624,   198,   626,
+     150,   151,   152,    85,   195,   195,    88,   198,   198,   195,
+       3,   493,   198,   186,   187,   195,    46,   195,   198,    54,
+     198,   194,   104,     4,   195,   195,   199,   138,   139,   140,
+     141,   142,   143,     3,    47,    48,   186,   187,   194,   121,
+     194,     6,   115,    12,   194,   126,   194,     4,     4,   199,
+     195,   198,    46,   135,     3,   131,   175,    91,     0,     3,
+      76,   119,     3,   113,   125,     7,   101,   194,   150,   151,
+     152,   194,    85,    15,   194,    88,   192,    98,    39,    55,
+      22,   194,   194,    94,   194,    27,   121,   125,   194,   198,
+     198,   104,    93,   128,   129,    37,   194,   172,    40,    41,
+     172,   136,   137,    58,   186,   187,   194,   194,   121,   195,
+      52,    53,   194,     3,   161,     4,     4,   199,     4,     3,
+      62,     3,   135,    65,   138,   139,   140,   141,   142,   143,
+     144,   145,   146,   147,   148,   149,   172,   150,   151,   152,
+     175,   176,   177,   178,   179,    87,   194,   182,   183,    91,
+     185,   186,   187,   188,   189,   190,    77,   192,    54,    94,
+     192,   194,     7,   194,   101,   107,   194,   194,   194,   194,
+      15,   113,   194,   186,   187,   195,   116,    22,   104,    11,
+       3,   194,    27,     3,   194,   193,   199,    62,    69,   198,
+     195,     6,    37,    25,   160,    40,    41,    29,    30,    31,
+      32,    33,    54,    35,     6,   101,     6,    52,    53,     6,
+       6,    43,   104,   155,   156,   157,   194,    62,   172,     4,
+      65,   195,   195,    54,   195,   121,    99,    78,    78,    78,
+      99,     3,   126,   129,   105,   195,    68,   195,    54,     6,
+     136,   137,    87,   195,   195,   195,    91,   195,   194,   101,
+     173,   194,   126,   116,    86,    24,    88,    89,    70,   195,
+     349,   195,   107,   399,   116,   339,   453,   360,   113,   121,
+     101,   103,   495,   248,   207,   299,   108,   129,   110,   175,
+     176,   177,   178,   179,   136,   137,   182,   183,   120,   185,
+     186,   187,   188,   189,   190,   201,   192,   353,   129,   127,
+     127,   584,   583,   104,   276,   136,   137,   364,    -1,   548,
+     155,   156,   157,   129,    -1,    -1,    -1,   264,    -1,    -1,
+     136,   153,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,    -1,
+     192,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+      -1,   192,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,    -1,   192
 };
 
-  /* YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-     symbol of state STATE-NUM.  */
-static const yytype_uint16 yystos[] =
+/* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+   state STATE-NUM.  */
+static const yytype_int16 yystos[] =
 {
        0,     7,    15,    22,    27,    37,    40,    41,    52,    53,
-      62,    65,    87,    91,   107,   113,   155,   156,   157,   200,
-     201,   202,   203,   207,   209,   211,   212,   218,   219,   220,
-     233,   235,   238,   239,   240,   242,   245,   326,   327,    27,
-       3,   315,     3,     3,   315,    70,    80,   111,    94,    94,
-      98,   314,   315,    80,   193,   248,   315,    70,    80,   111,
-      19,    60,     3,   328,   329,   154,   208,   208,   208,     0,
-     196,   333,   113,   204,   204,    58,   248,   249,   253,     3,
-     195,   193,    94,   127,   221,   221,   221,   315,     3,   213,
-     315,   123,   127,   234,   248,   249,   133,    94,   133,   234,
-     234,   234,   315,   125,   197,   202,    97,   124,   266,     9,
-      45,    81,   250,   251,    76,   250,   261,     3,     4,     5,
-       6,    48,    88,   104,   150,   151,   152,   185,   198,   269,
-     270,   271,   272,   300,   301,   302,   303,   304,   305,   306,
-     307,   308,     4,   210,   121,     3,   316,   315,   315,    83,
-     258,    93,   193,   241,     3,   243,   244,    46,   315,   194,
-     194,     4,   214,   214,   214,     3,   315,   315,   248,   329,
-     193,     6,   304,    12,   254,   246,   247,   248,   253,   115,
-     252,   126,   246,    55,    72,   267,   138,   139,   140,   141,
-     142,   143,   144,   145,   146,   147,   148,   149,   293,   294,
-     295,   193,     4,     4,   303,   307,   194,   197,    46,   131,
-      94,   125,   193,   241,     3,    46,    47,    48,    85,   121,
-     135,   185,   186,   193,   274,   275,   276,   277,   278,   279,
-     280,   281,   283,   284,   285,   291,   292,   296,   297,   298,
-     299,   300,   214,     3,   334,    63,   249,   174,   197,   258,
-      91,   236,   237,   113,   193,   215,   215,   215,     3,   205,
-     206,   255,   268,   273,   274,   261,   250,   262,   263,   274,
-     261,   274,   115,   274,   119,   321,   322,   323,   272,   293,
-     271,   315,     3,   245,     3,   169,   170,   171,   222,   223,
-     224,   231,   125,   193,   195,   193,   193,   193,   112,   274,
-     282,    46,   121,   275,   191,   275,   249,   274,   116,   132,
-      17,    54,   101,   121,   128,   129,   136,   137,   174,   175,
-     176,   177,   178,   181,   182,   184,   185,   186,   187,   188,
-     189,   191,    98,   194,   197,   193,   274,   244,    39,   193,
-       3,    24,    49,   104,   216,   217,   258,   193,   194,   197,
-      94,   256,   257,   197,     3,   125,   319,   320,   267,   246,
-     197,    90,   117,   264,   267,    55,    55,    62,   134,   161,
-     172,   324,   323,   125,   193,    93,    11,    25,    29,    30,
+      62,    65,    87,    91,   107,   113,   155,   156,   157,   201,
+     202,   203,   204,   208,   210,   212,   213,   219,   220,   221,
+     234,   236,   239,   240,   241,   243,   246,   327,   328,    27,
+       3,   316,     3,     3,   316,    70,    80,   111,    94,    94,
+      98,   315,   316,    80,   194,   249,   316,    70,    80,   111,
+      19,    60,     3,   329,   330,   154,   209,   209,   209,     0,
+     197,   334,   113,   205,   205,    58,   249,   250,   254,     3,
+     196,   194,    94,   127,   222,   222,   222,   316,     3,   214,
+     316,   123,   127,   235,   249,   250,   133,    94,   133,   235,
+     235,   235,   316,   125,   198,   203,    97,   124,   267,     9,
+      45,    81,   251,   252,    76,   251,   262,     3,     4,     5,
+       6,    48,    88,   104,   150,   151,   152,   186,   199,   270,
+     271,   272,   273,   301,   302,   303,   304,   305,   306,   307,
+     308,   309,     4,   211,   121,     3,   317,   316,   316,    83,
+     259,    93,   194,   242,     3,   244,   245,    46,   316,   195,
+     195,     4,   215,   215,   215,     3,   316,   316,   249,   330,
+     194,     6,   305,    12,   255,   247,   248,   249,   254,   115,
+     253,   126,   247,    55,    72,   268,   138,   139,   140,   141,
+     142,   143,   144,   145,   146,   147,   148,   149,   294,   295,
+     296,   194,     4,     4,   304,   308,   195,   198,    46,   131,
+      94,   125,   194,   242,     3,    46,    47,    48,    85,   121,
+     135,   186,   187,   194,   275,   276,   277,   278,   279,   280,
+     281,   282,   284,   285,   286,   292,   293,   297,   298,   299,
+     300,   301,   215,     3,   335,    63,   250,   175,   198,   259,
+      91,   237,   238,   113,   194,   216,   216,   216,     3,   206,
+     207,   256,   269,   274,   275,   262,   251,   263,   264,   275,
+     262,   275,   115,   275,   119,   322,   323,   324,   273,   294,
+     272,   316,     3,   246,     3,   169,   170,   171,   223,   224,
+     225,   232,   125,   194,   196,   194,   194,   194,   112,   275,
+     283,    46,   121,   276,   192,   276,   250,   275,   116,   132,
+      17,    54,   101,   121,   128,   129,   136,   137,   175,   176,
+     177,   178,   179,   182,   183,   185,   186,   187,   188,   189,
+     190,   192,    98,   195,   198,   194,   275,   245,    39,   194,
+       3,    24,    49,   104,   217,   218,   259,   194,   195,   198,
+      94,   257,   258,   198,     3,   125,   320,   321,   268,   247,
+     198,    90,   117,   265,   268,    55,    55,    62,   134,   161,
+     172,   325,   324,   125,   194,    93,    11,    25,    29,    30,
       31,    32,    33,    35,    43,    68,    86,    88,    89,   103,
-     108,   110,   120,   153,   225,   193,   172,   172,   194,   197,
-     245,   194,   254,     3,   186,   249,   293,   274,   274,   282,
-      92,   112,   118,   193,   121,   268,   194,   194,   274,   274,
-     275,   275,   101,   128,   193,   104,   121,   275,   275,   275,
-     275,   275,   275,   275,   275,   275,   275,   275,   275,   275,
-     275,   275,   304,   315,     3,   270,   234,   216,     4,     4,
-     213,     4,   194,   197,   270,   206,   193,   309,   310,   311,
-     312,   313,   315,   330,   258,   273,     3,   263,     3,   265,
-     321,   274,   274,   172,   161,   130,   158,   159,   325,   225,
-     334,   214,   193,   193,   227,   193,   193,   193,   226,   104,
-     121,   169,   170,   173,   228,   229,   230,   232,   334,   193,
-     193,   223,    77,   286,   268,   193,   194,    94,   125,   109,
-      92,   118,   274,   274,   249,   192,   116,   275,   193,   249,
-     268,   104,   192,   194,     3,   194,    24,    49,   217,   194,
-     245,    26,    66,    71,    78,    79,    95,   100,   331,   197,
-     125,   317,   318,   319,    69,   259,     3,    62,   334,   160,
-     194,   194,     6,     6,     6,     6,     6,   104,   172,   315,
-     230,   232,   194,   334,   334,   193,   194,   194,   254,   274,
-     225,   274,   274,   118,   109,   194,   275,   249,   268,   194,
-     194,     4,   213,   194,    99,    78,    78,    78,    99,   310,
-       3,   126,   325,   194,   194,   197,   194,   194,   194,   241,
-     194,   194,   105,   287,   286,   286,   268,   194,   194,   118,
-     274,   194,   194,   318,   311,   310,   193,   268,     6,   232,
-     126,   261,   194,    82,   131,   334,    51,   260,   194,   268,
-     162,   163,   164,   288,   289,   286,   193,   274,   332,   194,
-     274,   194,     6,    17,   165,   168,   290,   334,   166,   167,
-     290,   166,   167,   194,   116,   290
+     108,   110,   120,   153,   226,   194,   172,   172,   195,   198,
+     246,   195,   255,     3,   187,   250,   294,   275,   275,   283,
+      92,   112,   118,   194,   121,   269,   195,   195,   275,   275,
+     276,   276,   101,   128,   194,   104,   121,   276,   276,   276,
+     276,   276,   276,   276,   276,   276,   276,   276,   276,   276,
+     276,   276,   305,   316,     3,   271,   235,   217,     4,     4,
+     214,     4,   195,   198,   271,   207,   194,   310,   311,   312,
+     313,   314,   316,   331,   259,   274,     3,   264,     3,   266,
+     322,   275,   275,   172,   161,   130,   158,   159,   326,   226,
+     335,   215,   194,   194,   228,   194,   194,   194,   227,   104,
+     121,   169,   170,   173,   229,   230,   231,   233,   335,   194,
+     194,   224,    77,   287,   269,   194,   195,    94,   125,   109,
+      92,   118,   275,   275,   250,   193,   116,   276,   194,   250,
+     269,   104,   193,   195,     3,   195,    24,    49,   218,   195,
+     246,    26,    66,    71,    78,    79,    95,   100,   332,   198,
+     125,   318,   319,   320,    69,   260,     3,    62,   335,   160,
+     195,   195,     6,     6,     6,     6,     6,   104,   172,   316,
+     231,   233,   195,   335,   335,   194,   195,   195,   255,   275,
+     226,   275,   275,   118,   109,   195,   276,   250,   269,   195,
+     195,     4,   214,   195,    99,    78,    78,    78,    99,   311,
+       3,   126,   326,   195,   195,   198,   195,   195,   195,   242,
+     195,   195,   105,   288,   287,   287,   269,   195,   195,   118,
+     275,   195,   195,   319,   312,   311,   194,   269,     6,   233,
+     126,   262,   195,    82,   131,   335,    51,   261,   195,   269,
+     162,   163,   164,   289,   290,   287,   194,   275,   333,   195,
+     275,   195,     6,    17,   165,   168,   291,   335,   166,   167,
+     291,   166,   167,   195,   116,   291
 };
 
-  /* YYR1[YYN] -- Symbol number of symbol that rule YYN derives.  */
-static const yytype_uint16 yyr1[] =
+/* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
+static const yytype_int16 yyr1[] =
 {
-       0,   199,   200,   201,   201,   202,   202,   202,   202,   202,
-     203,   203,   203,   203,   203,   203,   203,   203,   203,   203,
-     204,   204,   205,   205,   206,   206,   207,   207,   207,   208,
-     208,   209,   210,   211,   211,   212,   212,   213,   214,   215,
-     215,   215,   216,   216,   216,   216,   216,   216,   217,   217,
-     218,   218,   219,   219,   219,   220,   220,   220,   220,   220,
-     221,   221,   222,   222,   223,   223,   224,   225,   225,   225,
-     225,   225,   225,   225,   225,   225,   225,   225,   225,   225,
-     225,   225,   225,   225,   225,   226,   226,   227,   227,   227,
-     228,   228,   229,   229,   229,   229,   230,   230,   230,   230,
-     231,   231,   231,   232,   233,   233,   233,   233,   234,   234,
-     235,   236,   237,   238,   239,   240,   240,   241,   241,   242,
-     243,   243,   244,   245,   245,   245,   246,   246,   247,   247,
-     248,   248,   249,   249,   250,   251,   251,   251,   252,   252,
-     253,   254,   254,   255,   256,   256,   257,   258,   258,   259,
-     259,   260,   260,   261,   261,   262,   262,   263,   264,   264,
-     264,   265,   265,   266,   266,   267,   267,   267,   267,   267,
-     267,   268,   268,   269,   269,   270,   270,   271,   271,   272,
-     272,   272,   273,   274,   274,   274,   274,   274,   275,   275,
-     275,   275,   275,   275,   275,   275,   275,   275,   275,   276,
-     276,   277,   277,   277,   277,   277,   278,   278,   278,   278,
-     278,   278,   278,   278,   278,   278,   278,   279,   279,   280,
-     280,   280,   280,   281,   281,   281,   281,   282,   282,   283,
-     283,   284,   284,   284,   284,   284,   284,   284,   285,   285,
-     285,   285,   286,   286,   287,   287,   288,   288,   288,   289,
-     289,   289,   290,   290,   290,   290,   290,   291,   292,   293,
-     293,   293,   293,   293,   293,   294,   294,   294,   294,   294,
-     294,   295,   295,   296,   297,   298,   299,   299,   299,   299,
-     300,   300,   300,   300,   300,   300,   300,   301,   302,   302,
-     303,   303,   304,   305,   306,   307,   307,   307,   308,   309,
-     309,   310,   310,   311,   311,   312,   312,   313,   314,   315,
-     315,   316,   316,   317,   317,   318,   318,   319,   319,   320,
-     320,   321,   321,   322,   322,   323,   323,   324,   324,   324,
-     324,   325,   325,   325,   326,   326,   327,   328,   328,   329,
-     330,   330,   330,   331,   331,   331,   331,   331,   331,   331,
-     331,   331,   331,   332,   333,   333,   334,   334
+       0,   200,   201,   202,   202,   203,   203,   203,   203,   203,
+     204,   204,   204,   204,   204,   204,   204,   204,   204,   204,
+     205,   205,   206,   206,   207,   207,   208,   208,   208,   209,
+     209,   210,   211,   212,   212,   213,   213,   214,   215,   216,
+     216,   216,   217,   217,   217,   217,   217,   217,   218,   218,
+     219,   219,   220,   220,   220,   221,   221,   221,   221,   221,
+     222,   222,   223,   223,   224,   224,   225,   226,   226,   226,
+     226,   226,   226,   226,   226,   226,   226,   226,   226,   226,
+     226,   226,   226,   226,   226,   227,   227,   228,   228,   228,
+     229,   229,   230,   230,   230,   230,   231,   231,   231,   231,
+     232,   232,   232,   233,   234,   234,   234,   234,   235,   235,
+     236,   237,   238,   239,   240,   241,   241,   242,   242,   243,
+     244,   244,   245,   246,   246,   246,   247,   247,   248,   248,
+     249,   249,   250,   250,   251,   252,   252,   252,   253,   253,
+     254,   255,   255,   256,   257,   257,   258,   259,   259,   260,
+     260,   261,   261,   262,   262,   263,   263,   264,   265,   265,
+     265,   266,   266,   267,   267,   268,   268,   268,   268,   268,
+     268,   269,   269,   270,   270,   271,   271,   272,   272,   273,
+     273,   273,   274,   275,   275,   275,   275,   275,   276,   276,
+     276,   276,   276,   276,   276,   276,   276,   276,   276,   277,
+     277,   278,   278,   278,   278,   278,   279,   279,   279,   279,
+     279,   279,   279,   279,   279,   279,   279,   280,   280,   281,
+     281,   281,   281,   282,   282,   282,   282,   283,   283,   284,
+     284,   285,   285,   285,   285,   285,   285,   285,   286,   286,
+     286,   286,   287,   287,   288,   288,   289,   289,   289,   290,
+     290,   290,   291,   291,   291,   291,   291,   292,   293,   294,
+     294,   294,   294,   294,   294,   295,   295,   295,   295,   295,
+     295,   296,   296,   297,   298,   299,   300,   300,   300,   300,
+     301,   301,   301,   301,   301,   301,   301,   302,   303,   303,
+     304,   304,   305,   306,   307,   308,   308,   308,   309,   310,
+     310,   311,   311,   312,   312,   313,   313,   314,   315,   316,
+     316,   317,   317,   318,   318,   319,   319,   320,   320,   321,
+     321,   322,   322,   323,   323,   324,   324,   325,   325,   325,
+     325,   326,   326,   326,   327,   327,   328,   329,   329,   330,
+     331,   331,   331,   332,   332,   332,   332,   332,   332,   332,
+     332,   332,   332,   333,   334,   334,   335,   335
 };
 
-  /* YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.  */
-static const yytype_uint8 yyr2[] =
+/* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
+static const yytype_int8 yyr2[] =
 {
        0,     2,     2,     1,     3,     2,     2,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
@@ -1448,39 +1531,39 @@ static const yytype_uint8 yyr2[] =
 };
 
 
+enum { YYENOMEM = -2 };
+
 #define yyerrok         (yyerrstatus = 0)
-#define yyclearin       (yychar = YYEMPTY)
-#define YYEMPTY         (-2)
-#define YYEOF           0
+#define yyclearin       (yychar = SQL_HSQL_EMPTY)
 
 #define YYACCEPT        goto yyacceptlab
 #define YYABORT         goto yyabortlab
 #define YYERROR         goto yyerrorlab
+#define YYNOMEM         goto yyexhaustedlab
 
 
 #define YYRECOVERING()  (!!yyerrstatus)
 
-#define YYBACKUP(Token, Value)                                  \
-do                                                              \
-  if (yychar == YYEMPTY)                                        \
-    {                                                           \
-      yychar = (Token);                                         \
-      yylval = (Value);                                         \
-      YYPOPSTACK (yylen);                                       \
-      yystate = *yyssp;                                         \
-      goto yybackup;                                            \
-    }                                                           \
-  else                                                          \
-    {                                                           \
-      yyerror (&yylloc, result, scanner, YY_("syntax error: cannot back up")); \
-      YYERROR;                                                  \
-    }                                                           \
-while (0)
-
-/* Error token number */
-#define YYTERROR        1
-#define YYERRCODE       256
-
+#define YYBACKUP(Token, Value)                                    \
+  do                                                              \
+    if (yychar == SQL_HSQL_EMPTY)                                        \
+      {                                                           \
+        yychar = (Token);                                         \
+        yylval = (Value);                                         \
+        YYPOPSTACK (yylen);                                       \
+        yystate = *yyssp;                                         \
+        goto yybackup;                                            \
+      }                                                           \
+    else                                                          \
+      {                                                           \
+        yyerror (&yylloc, result, scanner, YY_("syntax error: cannot back up")); \
+        YYERROR;                                                  \
+      }                                                           \
+  while (0)
+
+/* Backward compatibility with an undocumented macro.
+   Use SQL_HSQL_error or SQL_HSQL_UNDEF. */
+#define YYERRCODE SQL_HSQL_UNDEF
 
 /* YYLLOC_DEFAULT -- Set CURRENT to span from RHS[1] to RHS[N].
    If N is 0, then set CURRENT to the empty location which ends
@@ -1524,20 +1607,27 @@ do {                                            \
 } while (0)
 
 
-/* YY_LOCATION_PRINT -- Print the location on the stream.
+/* YYLOCATION_PRINT -- Print the location on the stream.
    This macro was not mandated originally: define only if we know
    we won't break user code: when these are the locations we know.  */
 
-#ifndef YY_LOCATION_PRINT
-# if defined HSQL_LTYPE_IS_TRIVIAL && HSQL_LTYPE_IS_TRIVIAL
+# ifndef YYLOCATION_PRINT
+
+#  if defined YY_LOCATION_PRINT
+
+   /* Temporary convenience wrapper in case some people defined the
+      undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YYLOCATION_PRINT(File, Loc)  YY_LOCATION_PRINT(File, *(Loc))
+
+#  elif defined HSQL_LTYPE_IS_TRIVIAL && HSQL_LTYPE_IS_TRIVIAL
 
 /* Print *YYLOCP on YYO.  Private, do not rely on its existence. */
 
 YY_ATTRIBUTE_UNUSED
-static unsigned
+static int
 yy_location_print_ (FILE *yyo, YYLTYPE const * const yylocp)
 {
-  unsigned res = 0;
+  int res = 0;
   int end_col = 0 != yylocp->last_column ? yylocp->last_column - 1 : 0;
   if (0 <= yylocp->first_line)
     {
@@ -1557,65 +1647,73 @@ yy_location_print_ (FILE *yyo, YYLTYPE const * const yylocp)
         res += YYFPRINTF (yyo, "-%d", end_col);
     }
   return res;
- }
+}
 
-#  define YY_LOCATION_PRINT(File, Loc)          \
-  yy_location_print_ (File, &(Loc))
+#   define YYLOCATION_PRINT  yy_location_print_
 
-# else
-#  define YY_LOCATION_PRINT(File, Loc) ((void) 0)
-# endif
-#endif
+    /* Temporary convenience wrapper in case some people defined the
+       undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YY_LOCATION_PRINT(File, Loc)  YYLOCATION_PRINT(File, &(Loc))
+
+#  else
+
+#   define YYLOCATION_PRINT(File, Loc) ((void) 0)
+    /* Temporary convenience wrapper in case some people defined the
+       undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YY_LOCATION_PRINT  YYLOCATION_PRINT
+
+#  endif
+# endif /* !defined YYLOCATION_PRINT */
 
 
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)                    \
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)                    \
 do {                                                                      \
   if (yydebug)                                                            \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, Location, result, scanner); \
+                  Kind, Value, Location, result, scanner); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
 
 
-/*----------------------------------------.
-| Print this symbol's value on YYOUTPUT.  |
-`----------------------------------------*/
+/*-----------------------------------.
+| Print this symbol's value on YYO.  |
+`-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_symbol_value_print (FILE *yyo,
+                       yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  FILE *yyo = yyoutput;
-  YYUSE (yyo);
-  YYUSE (yylocationp);
-  YYUSE (result);
-  YYUSE (scanner);
+  FILE *yyoutput = yyo;
+  YY_USE (yyoutput);
+  YY_USE (yylocationp);
+  YY_USE (result);
+  YY_USE (scanner);
   if (!yyvaluep)
     return;
-# ifdef YYPRINT
-  if (yytype < YYNTOKENS)
-    YYPRINT (yyoutput, yytoknum[yytype], *yyvaluep);
-# endif
-  YYUSE (yytype);
+  YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
+  YY_USE (yykind);
+  YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
 
-/*--------------------------------.
-| Print this symbol on YYOUTPUT.  |
-`--------------------------------*/
+/*---------------------------.
+| Print this symbol on YYO.  |
+`---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_symbol_print (FILE *yyo,
+                 yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  YYFPRINTF (yyoutput, "%s %s (",
-             yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
+  YYFPRINTF (yyo, "%s %s (",
+             yykind < YYNTOKENS ? "token" : "nterm", yysymbol_name (yykind));
 
-  YY_LOCATION_PRINT (yyoutput, *yylocationp);
-  YYFPRINTF (yyoutput, ": ");
-  yy_symbol_value_print (yyoutput, yytype, yyvaluep, yylocationp, result, scanner);
-  YYFPRINTF (yyoutput, ")");
+  YYLOCATION_PRINT (yyo, yylocationp);
+  YYFPRINTF (yyo, ": ");
+  yy_symbol_value_print (yyo, yykind, yyvaluep, yylocationp, result, scanner);
+  YYFPRINTF (yyo, ")");
 }
 
 /*------------------------------------------------------------------.
@@ -1624,7 +1722,7 @@ yy_symbol_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYL
 `------------------------------------------------------------------*/
 
 static void
-yy_stack_print (yytype_int16 *yybottom, yytype_int16 *yytop)
+yy_stack_print (yy_state_t *yybottom, yy_state_t *yytop)
 {
   YYFPRINTF (stderr, "Stack now");
   for (; yybottom <= yytop; yybottom++)
@@ -1647,21 +1745,22 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yytype_int16 *yyssp, YYSTYPE *yyvsp, YYLTYPE *yylsp, int yyrule, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, YYLTYPE *yylsp,
+                 int yyrule, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  unsigned long int yylno = yyrline[yyrule];
+  int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
   int yyi;
-  YYFPRINTF (stderr, "Reducing stack by rule %d (line %lu):\n",
+  YYFPRINTF (stderr, "Reducing stack by rule %d (line %d):\n",
              yyrule - 1, yylno);
   /* The symbols being reduced.  */
   for (yyi = 0; yyi < yynrhs; yyi++)
     {
       YYFPRINTF (stderr, "   $%d = ", yyi + 1);
       yy_symbol_print (stderr,
-                       yystos[yyssp[yyi + 1 - yynrhs]],
-                       &(yyvsp[(yyi + 1) - (yynrhs)])
-                       , &(yylsp[(yyi + 1) - (yynrhs)])                       , result, scanner);
+                       YY_ACCESSING_SYMBOL (+yyssp[yyi + 1 - yynrhs]),
+                       &yyvsp[(yyi + 1) - (yynrhs)],
+                       &(yylsp[(yyi + 1) - (yynrhs)]), result, scanner);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -1676,8 +1775,8 @@ do {                                    \
    multiple parsers can coexist.  */
 int yydebug;
 #else /* !HSQL_DEBUG */
-# define YYDPRINTF(Args)
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)
+# define YYDPRINTF(Args) ((void) 0)
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)
 # define YY_STACK_PRINT(Bottom, Top)
 # define YY_REDUCE_PRINT(Rule)
 #endif /* !HSQL_DEBUG */
@@ -1700,28 +1799,77 @@ int yydebug;
 #endif
 
 
-#if YYERROR_VERBOSE
+/* Context of a parse error.  */
+typedef struct
+{
+  yy_state_t *yyssp;
+  yysymbol_kind_t yytoken;
+  YYLTYPE *yylloc;
+} yypcontext_t;
+
+/* Put in YYARG at most YYARGN of the expected tokens given the
+   current YYCTX, and return the number of tokens stored in YYARG.  If
+   YYARG is null, return the number of expected tokens (guaranteed to
+   be less than YYNTOKENS).  Return YYENOMEM on memory exhaustion.
+   Return 0 if there are more than YYARGN expected tokens, yet fill
+   YYARG up to YYARGN. */
+static int
+yypcontext_expected_tokens (const yypcontext_t *yyctx,
+                            yysymbol_kind_t yyarg[], int yyargn)
+{
+  /* Actual size of YYARG. */
+  int yycount = 0;
+  int yyn = yypact[+*yyctx->yyssp];
+  if (!yypact_value_is_default (yyn))
+    {
+      /* Start YYX at -YYN if negative to avoid negative indexes in
+         YYCHECK.  In other words, skip the first -YYN actions for
+         this state because they are default actions.  */
+      int yyxbegin = yyn < 0 ? -yyn : 0;
+      /* Stay within bounds of both yycheck and yytname.  */
+      int yychecklim = YYLAST - yyn + 1;
+      int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+      int yyx;
+      for (yyx = yyxbegin; yyx < yyxend; ++yyx)
+        if (yycheck[yyx + yyn] == yyx && yyx != YYSYMBOL_YYerror
+            && !yytable_value_is_error (yytable[yyx + yyn]))
+          {
+            if (!yyarg)
+              ++yycount;
+            else if (yycount == yyargn)
+              return 0;
+            else
+              yyarg[yycount++] = YY_CAST (yysymbol_kind_t, yyx);
+          }
+    }
+  if (yyarg && yycount == 0 && 0 < yyargn)
+    yyarg[0] = YYSYMBOL_YYEMPTY;
+  return yycount;
+}
+
+
 
-# ifndef yystrlen
-#  if defined __GLIBC__ && defined _STRING_H
-#   define yystrlen strlen
-#  else
+
+#ifndef yystrlen
+# if defined __GLIBC__ && defined _STRING_H
+#  define yystrlen(S) (YY_CAST (YYPTRDIFF_T, strlen (S)))
+# else
 /* Return the length of YYSTR.  */
-static YYSIZE_T
+static YYPTRDIFF_T
 yystrlen (const char *yystr)
 {
-  YYSIZE_T yylen;
+  YYPTRDIFF_T yylen;
   for (yylen = 0; yystr[yylen]; yylen++)
     continue;
   return yylen;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yystpcpy
-#  if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
-#   define yystpcpy stpcpy
-#  else
+#ifndef yystpcpy
+# if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
+#  define yystpcpy stpcpy
+# else
 /* Copy YYSRC to YYDEST, returning the address of the terminating '\0' in
    YYDEST.  */
 static char *
@@ -1735,10 +1883,10 @@ yystpcpy (char *yydest, const char *yysrc)
 
   return yyd - 1;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yytnamerr
+#ifndef yytnamerr
 /* Copy to YYRES the contents of YYSTR after stripping away unnecessary
    quotes and backslashes, so that it's suitable for yyerror.  The
    heuristic is that double-quoting is unnecessary unless the string
@@ -1746,14 +1894,13 @@ yystpcpy (char *yydest, const char *yysrc)
    backslash-backslash).  YYSTR is taken from yytname.  If YYRES is
    null, do not copy; instead, return the length of what the result
    would have been.  */
-static YYSIZE_T
+static YYPTRDIFF_T
 yytnamerr (char *yyres, const char *yystr)
 {
   if (*yystr == '"')
     {
-      YYSIZE_T yyn = 0;
+      YYPTRDIFF_T yyn = 0;
       char const *yyp = yystr;
-
       for (;;)
         switch (*++yyp)
           {
@@ -1764,7 +1911,10 @@ yytnamerr (char *yyres, const char *yystr)
           case '\\':
             if (*++yyp != '\\')
               goto do_not_strip_quotes;
-            /* Fall through.  */
+            else
+              goto append;
+
+          append:
           default:
             if (yyres)
               yyres[yyn] = *yyp;
@@ -1779,36 +1929,20 @@ yytnamerr (char *yyres, const char *yystr)
     do_not_strip_quotes: ;
     }
 
-  if (! yyres)
+  if (yyres)
+    return yystpcpy (yyres, yystr) - yyres;
+  else
     return yystrlen (yystr);
-
-  return yystpcpy (yyres, yystr) - yyres;
 }
-# endif
+#endif
 
-/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
-   about the unexpected token YYTOKEN for the state stack whose top is
-   YYSSP.
 
-   Return 0 if *YYMSG was successfully written.  Return 1 if *YYMSG is
-   not large enough to hold the message.  In that case, also set
-   *YYMSG_ALLOC to the required number of bytes.  Return 2 if the
-   required number of bytes is too large to store.  */
 static int
-yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
-                yytype_int16 *yyssp, int yytoken)
+yy_syntax_error_arguments (const yypcontext_t *yyctx,
+                           yysymbol_kind_t yyarg[], int yyargn)
 {
-  YYSIZE_T yysize0 = yytnamerr (YY_NULLPTR, yytname[yytoken]);
-  YYSIZE_T yysize = yysize0;
-  enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-  /* Internationalized format string. */
-  const char *yyformat = YY_NULLPTR;
-  /* Arguments of yyformat. */
-  char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
-  /* Number of reported tokens (one for the "unexpected", one per
-     "expected"). */
+  /* Actual size of YYARG. */
   int yycount = 0;
-
   /* There are many possibilities here to consider:
      - If this state is a consistent state with a default action, then
        the only way this function was invoked is if the default action
@@ -1832,63 +1966,78 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
        one exception: it will still contain any token that will not be
        accepted due to an error action in a later state.
   */
-  if (yytoken != YYEMPTY)
+  if (yyctx->yytoken != YYSYMBOL_YYEMPTY)
     {
-      int yyn = yypact[*yyssp];
-      yyarg[yycount++] = yytname[yytoken];
-      if (!yypact_value_is_default (yyn))
-        {
-          /* Start YYX at -YYN if negative to avoid negative indexes in
-             YYCHECK.  In other words, skip the first -YYN actions for
-             this state because they are default actions.  */
-          int yyxbegin = yyn < 0 ? -yyn : 0;
-          /* Stay within bounds of both yycheck and yytname.  */
-          int yychecklim = YYLAST - yyn + 1;
-          int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
-          int yyx;
-
-          for (yyx = yyxbegin; yyx < yyxend; ++yyx)
-            if (yycheck[yyx + yyn] == yyx && yyx != YYTERROR
-                && !yytable_value_is_error (yytable[yyx + yyn]))
-              {
-                if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                  {
-                    yycount = 1;
-                    yysize = yysize0;
-                    break;
-                  }
-                yyarg[yycount++] = yytname[yyx];
-                {
-                  YYSIZE_T yysize1 = yysize + yytnamerr (YY_NULLPTR, yytname[yyx]);
-                  if (! (yysize <= yysize1
-                         && yysize1 <= YYSTACK_ALLOC_MAXIMUM))
-                    return 2;
-                  yysize = yysize1;
-                }
-              }
-        }
+      int yyn;
+      if (yyarg)
+        yyarg[yycount] = yyctx->yytoken;
+      ++yycount;
+      yyn = yypcontext_expected_tokens (yyctx,
+                                        yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+      if (yyn == YYENOMEM)
+        return YYENOMEM;
+      else
+        yycount += yyn;
     }
+  return yycount;
+}
+
+/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
+   about the unexpected token YYTOKEN for the state stack whose top is
+   YYSSP.
+
+   Return 0 if *YYMSG was successfully written.  Return -1 if *YYMSG is
+   not large enough to hold the message.  In that case, also set
+   *YYMSG_ALLOC to the required number of bytes.  Return YYENOMEM if the
+   required number of bytes is too large to store.  */
+static int
+yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
+                const yypcontext_t *yyctx)
+{
+  enum { YYARGS_MAX = 5 };
+  /* Internationalized format string. */
+  const char *yyformat = YY_NULLPTR;
+  /* Arguments of yyformat: reported tokens (one for the "unexpected",
+     one per "expected"). */
+  yysymbol_kind_t yyarg[YYARGS_MAX];
+  /* Cumulated lengths of YYARG.  */
+  YYPTRDIFF_T yysize = 0;
+
+  /* Actual size of YYARG. */
+  int yycount = yy_syntax_error_arguments (yyctx, yyarg, YYARGS_MAX);
+  if (yycount == YYENOMEM)
+    return YYENOMEM;
 
   switch (yycount)
     {
-# define YYCASE_(N, S)                      \
+#define YYCASE_(N, S)                       \
       case N:                               \
         yyformat = S;                       \
-      break
+        break
+    default: /* Avoid compiler warnings. */
       YYCASE_(0, YY_("syntax error"));
       YYCASE_(1, YY_("syntax error, unexpected %s"));
       YYCASE_(2, YY_("syntax error, unexpected %s, expecting %s"));
       YYCASE_(3, YY_("syntax error, unexpected %s, expecting %s or %s"));
       YYCASE_(4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
       YYCASE_(5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-# undef YYCASE_
+#undef YYCASE_
     }
 
+  /* Compute error message size.  Don't count the "%s"s, but reserve
+     room for the terminator.  */
+  yysize = yystrlen (yyformat) - 2 * yycount + 1;
   {
-    YYSIZE_T yysize1 = yysize + yystrlen (yyformat);
-    if (! (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM))
-      return 2;
-    yysize = yysize1;
+    int yyi;
+    for (yyi = 0; yyi < yycount; ++yyi)
+      {
+        YYPTRDIFF_T yysize1
+          = yysize + yytnamerr (YY_NULLPTR, yytname[yyarg[yyi]]);
+        if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
+          yysize = yysize1;
+        else
+          return YYENOMEM;
+      }
   }
 
   if (*yymsg_alloc < yysize)
@@ -1897,7 +2046,7 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
       if (! (yysize <= *yymsg_alloc
              && *yymsg_alloc <= YYSTACK_ALLOC_MAXIMUM))
         *yymsg_alloc = YYSTACK_ALLOC_MAXIMUM;
-      return 1;
+      return -1;
     }
 
   /* Avoid sprintf, as that infringes on the user's name space.
@@ -1909,64 +2058,65 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
     while ((*yyp = *yyformat) != '\0')
       if (*yyp == '%' && yyformat[1] == 's' && yyi < yycount)
         {
-          yyp += yytnamerr (yyp, yyarg[yyi++]);
+          yyp += yytnamerr (yyp, yytname[yyarg[yyi++]]);
           yyformat += 2;
         }
       else
         {
-          yyp++;
-          yyformat++;
+          ++yyp;
+          ++yyformat;
         }
   }
   return 0;
 }
-#endif /* YYERROR_VERBOSE */
+
 
 /*-----------------------------------------------.
 | Release the memory associated to this symbol.  |
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yydestruct (const char *yymsg,
+            yysymbol_kind_t yykind, YYSTYPE *yyvaluep, YYLTYPE *yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  YYUSE (yyvaluep);
-  YYUSE (yylocationp);
-  YYUSE (result);
-  YYUSE (scanner);
+  YY_USE (yyvaluep);
+  YY_USE (yylocationp);
+  YY_USE (result);
+  YY_USE (scanner);
   if (!yymsg)
     yymsg = "Deleting";
-  YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
+  YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  switch (yytype)
+  switch (yykind)
     {
-          case 3: /* IDENTIFIER  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 1947 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2097 "bison_parser.cpp"
         break;
 
-    case 4: /* STRING  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 1953 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_STRING: /* STRING  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2103 "bison_parser.cpp"
         break;
 
-    case 5: /* FLOATVAL  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 1959 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
+#line 181 "bison_parser.y"
+            { }
+#line 2109 "bison_parser.cpp"
         break;
 
-    case 6: /* INTVAL  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 1965 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_INTVAL: /* INTVAL  */
+#line 181 "bison_parser.y"
+            { }
+#line 2115 "bison_parser.cpp"
         break;
 
-    case 201: /* statement_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_statement_list: /* statement_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
       delete ptr;
@@ -1974,24 +2124,24 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 1978 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2128 "bison_parser.cpp"
         break;
 
-    case 202: /* statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).statement)); }
-#line 1984 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_statement: /* statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).statement)); }
+#line 2134 "bison_parser.cpp"
         break;
 
-    case 203: /* preparable_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).statement)); }
-#line 1990 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_preparable_statement: /* preparable_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).statement)); }
+#line 2140 "bison_parser.cpp"
         break;
 
-    case 204: /* opt_hints  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_hints: /* opt_hints  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -1999,12 +2149,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2003 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2153 "bison_parser.cpp"
         break;
 
-    case 205: /* hint_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_hint_list: /* hint_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2012,105 +2162,105 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2016 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2166 "bison_parser.cpp"
         break;
 
-    case 206: /* hint  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2022 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_hint: /* hint  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2172 "bison_parser.cpp"
         break;
 
-    case 207: /* transaction_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).transaction_stmt)); }
-#line 2028 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_transaction_statement: /* transaction_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).transaction_stmt)); }
+#line 2178 "bison_parser.cpp"
         break;
 
-    case 209: /* prepare_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).prep_stmt)); }
-#line 2034 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_prepare_statement: /* prepare_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).prep_stmt)); }
+#line 2184 "bison_parser.cpp"
         break;
 
-    case 210: /* prepare_target_query  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2040 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2190 "bison_parser.cpp"
         break;
 
-    case 211: /* execute_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).exec_stmt)); }
-#line 2046 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_execute_statement: /* execute_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).exec_stmt)); }
+#line 2196 "bison_parser.cpp"
         break;
 
-    case 212: /* import_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_stmt)); }
-#line 2052 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_import_statement: /* import_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).import_stmt)); }
+#line 2202 "bison_parser.cpp"
         break;
 
-    case 213: /* file_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2058 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_file_type: /* file_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2208 "bison_parser.cpp"
         break;
 
-    case 214: /* file_path  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2064 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_file_path: /* file_path  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2214 "bison_parser.cpp"
         break;
 
-    case 215: /* opt_import_export_options  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_export_option_t)); }
-#line 2070 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).import_export_option_t)); }
+#line 2220 "bison_parser.cpp"
         break;
 
-    case 216: /* import_export_options  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_export_option_t)); }
-#line 2076 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_import_export_options: /* import_export_options  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).import_export_option_t)); }
+#line 2226 "bison_parser.cpp"
         break;
 
-    case 217: /* csv_option  */
-#line 203 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_csv_option: /* csv_option  */
+#line 203 "bison_parser.y"
+            {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 2085 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2235 "bison_parser.cpp"
         break;
 
-    case 218: /* export_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).export_stmt)); }
-#line 2091 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_export_statement: /* export_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).export_stmt)); }
+#line 2241 "bison_parser.cpp"
         break;
 
-    case 219: /* show_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).show_stmt)); }
-#line 2097 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_show_statement: /* show_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).show_stmt)); }
+#line 2247 "bison_parser.cpp"
         break;
 
-    case 220: /* create_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).create_stmt)); }
-#line 2103 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_create_statement: /* create_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).create_stmt)); }
+#line 2253 "bison_parser.cpp"
         break;
 
-    case 221: /* opt_not_exists  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2109 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
+#line 181 "bison_parser.y"
+            { }
+#line 2259 "bison_parser.cpp"
         break;
 
-    case 222: /* table_elem_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
       delete ptr;
@@ -2118,120 +2268,120 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 2122 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2272 "bison_parser.cpp"
         break;
 
-    case 223: /* table_elem  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table_element_t)); }
-#line 2128 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_elem: /* table_elem  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table_element_t)); }
+#line 2278 "bison_parser.cpp"
         break;
 
-    case 224: /* column_def  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_t)); }
-#line 2134 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_def: /* column_def  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).column_t)); }
+#line 2284 "bison_parser.cpp"
         break;
 
-    case 225: /* column_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2140 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_type: /* column_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2290 "bison_parser.cpp"
         break;
 
-    case 226: /* opt_time_precision  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2146 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
+#line 181 "bison_parser.y"
+            { }
+#line 2296 "bison_parser.cpp"
         break;
 
-    case 227: /* opt_decimal_specification  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).ival_pair)); }
-#line 2152 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).ival_pair)); }
+#line 2302 "bison_parser.cpp"
         break;
 
-    case 228: /* opt_column_constraints  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_constraints_t)); }
-#line 2158 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).column_constraints_t)); }
+#line 2308 "bison_parser.cpp"
         break;
 
-    case 229: /* column_constraints  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_constraints_t)); }
-#line 2164 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_constraints: /* column_constraints  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).column_constraints_t)); }
+#line 2314 "bison_parser.cpp"
         break;
 
-    case 230: /* column_constraint  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2170 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_constraint: /* column_constraint  */
+#line 181 "bison_parser.y"
+            { }
+#line 2320 "bison_parser.cpp"
         break;
 
-    case 231: /* table_constraint  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table_constraint_t)); }
-#line 2176 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_constraint: /* table_constraint  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table_constraint_t)); }
+#line 2326 "bison_parser.cpp"
         break;
 
-    case 232: /* references_spec  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).references_spec_t)); }
-#line 2182 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_references_spec: /* references_spec  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).references_spec_t)); }
+#line 2332 "bison_parser.cpp"
         break;
 
-    case 233: /* drop_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).drop_stmt)); }
-#line 2188 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_drop_statement: /* drop_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).drop_stmt)); }
+#line 2338 "bison_parser.cpp"
         break;
 
-    case 234: /* opt_exists  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2194 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_exists: /* opt_exists  */
+#line 181 "bison_parser.y"
+            { }
+#line 2344 "bison_parser.cpp"
         break;
 
-    case 235: /* alter_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alter_stmt)); }
-#line 2200 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alter_statement: /* alter_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alter_stmt)); }
+#line 2350 "bison_parser.cpp"
         break;
 
-    case 236: /* alter_action  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alter_action_t)); }
-#line 2206 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alter_action: /* alter_action  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alter_action_t)); }
+#line 2356 "bison_parser.cpp"
         break;
 
-    case 237: /* drop_action  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).drop_action_t)); }
-#line 2212 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_drop_action: /* drop_action  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).drop_action_t)); }
+#line 2362 "bison_parser.cpp"
         break;
 
-    case 238: /* delete_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).delete_stmt)); }
-#line 2218 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_delete_statement: /* delete_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).delete_stmt)); }
+#line 2368 "bison_parser.cpp"
         break;
 
-    case 239: /* truncate_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).delete_stmt)); }
-#line 2224 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_truncate_statement: /* truncate_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).delete_stmt)); }
+#line 2374 "bison_parser.cpp"
         break;
 
-    case 240: /* insert_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).insert_stmt)); }
-#line 2230 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_insert_statement: /* insert_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).insert_stmt)); }
+#line 2380 "bison_parser.cpp"
         break;
 
-    case 241: /* opt_column_list  */
-#line 186 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_column_list: /* opt_column_list  */
+#line 186 "bison_parser.y"
+            {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
       free(ptr);
@@ -2239,18 +2389,18 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2243 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2393 "bison_parser.cpp"
         break;
 
-    case 242: /* update_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).update_stmt)); }
-#line 2249 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_update_statement: /* update_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).update_stmt)); }
+#line 2399 "bison_parser.cpp"
         break;
 
-    case 243: /* update_clause_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).update_vec)) {
     for (auto ptr : *(((*yyvaluep).update_vec))) {
       delete ptr;
@@ -2258,78 +2408,78 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 2262 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2412 "bison_parser.cpp"
         break;
 
-    case 244: /* update_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).update_t)); }
-#line 2268 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_update_clause: /* update_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).update_t)); }
+#line 2418 "bison_parser.cpp"
         break;
 
-    case 245: /* select_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2274 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_statement: /* select_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2424 "bison_parser.cpp"
         break;
 
-    case 246: /* select_within_set_operation  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2280 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2430 "bison_parser.cpp"
         break;
 
-    case 247: /* select_within_set_operation_no_parentheses  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2286 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2436 "bison_parser.cpp"
         break;
 
-    case 248: /* select_with_paren  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2292 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_with_paren: /* select_with_paren  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2442 "bison_parser.cpp"
         break;
 
-    case 249: /* select_no_paren  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2298 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_no_paren: /* select_no_paren  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2448 "bison_parser.cpp"
         break;
 
-    case 250: /* set_operator  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).set_operator_t)); }
-#line 2304 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_set_operator: /* set_operator  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).set_operator_t)); }
+#line 2454 "bison_parser.cpp"
         break;
 
-    case 251: /* set_type  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).set_operator_t)); }
-#line 2310 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_set_type: /* set_type  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).set_operator_t)); }
+#line 2460 "bison_parser.cpp"
         break;
 
-    case 252: /* opt_all  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2316 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_all: /* opt_all  */
+#line 181 "bison_parser.y"
+            { }
+#line 2466 "bison_parser.cpp"
         break;
 
-    case 253: /* select_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2322 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_clause: /* select_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2472 "bison_parser.cpp"
         break;
 
-    case 254: /* opt_distinct  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2328 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_distinct: /* opt_distinct  */
+#line 181 "bison_parser.y"
+            { }
+#line 2478 "bison_parser.cpp"
         break;
 
-    case 255: /* select_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_select_list: /* select_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2337,42 +2487,42 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2341 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2491 "bison_parser.cpp"
         break;
 
-    case 256: /* opt_from_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2347 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2497 "bison_parser.cpp"
         break;
 
-    case 257: /* from_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2353 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_from_clause: /* from_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2503 "bison_parser.cpp"
         break;
 
-    case 258: /* opt_where  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2359 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_where: /* opt_where  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2509 "bison_parser.cpp"
         break;
 
-    case 259: /* opt_group  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).group_t)); }
-#line 2365 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_group: /* opt_group  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).group_t)); }
+#line 2515 "bison_parser.cpp"
         break;
 
-    case 260: /* opt_having  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2371 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_having: /* opt_having  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2521 "bison_parser.cpp"
         break;
 
-    case 261: /* opt_order  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_order: /* opt_order  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
       delete ptr;
@@ -2380,12 +2530,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2384 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2534 "bison_parser.cpp"
         break;
 
-    case 262: /* order_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_order_list: /* order_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
       delete ptr;
@@ -2393,42 +2543,42 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2397 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2547 "bison_parser.cpp"
         break;
 
-    case 263: /* order_desc  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).order)); }
-#line 2403 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_order_desc: /* order_desc  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).order)); }
+#line 2553 "bison_parser.cpp"
         break;
 
-    case 264: /* opt_order_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2409 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_order_type: /* opt_order_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2559 "bison_parser.cpp"
         break;
 
-    case 265: /* opt_null_ordering  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2415 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
+#line 181 "bison_parser.y"
+            { }
+#line 2565 "bison_parser.cpp"
         break;
 
-    case 266: /* opt_top  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).limit)); }
-#line 2421 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_top: /* opt_top  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).limit)); }
+#line 2571 "bison_parser.cpp"
         break;
 
-    case 267: /* opt_limit  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).limit)); }
-#line 2427 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_limit: /* opt_limit  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).limit)); }
+#line 2577 "bison_parser.cpp"
         break;
 
-    case 268: /* expr_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_expr_list: /* expr_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2436,12 +2586,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2440 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2590 "bison_parser.cpp"
         break;
 
-    case 269: /* opt_extended_literal_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2449,12 +2599,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2453 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2603 "bison_parser.cpp"
         break;
 
-    case 270: /* extended_literal_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2462,108 +2612,108 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2466 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2616 "bison_parser.cpp"
         break;
 
-    case 271: /* casted_extended_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2472 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2622 "bison_parser.cpp"
         break;
 
-    case 272: /* extended_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2478 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_extended_literal: /* extended_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2628 "bison_parser.cpp"
         break;
 
-    case 273: /* expr_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2484 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_expr_alias: /* expr_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2634 "bison_parser.cpp"
         break;
 
-    case 274: /* expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2490 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_expr: /* expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2640 "bison_parser.cpp"
         break;
 
-    case 275: /* operand  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2496 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_operand: /* operand  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2646 "bison_parser.cpp"
         break;
 
-    case 276: /* scalar_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2502 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_scalar_expr: /* scalar_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2652 "bison_parser.cpp"
         break;
 
-    case 277: /* unary_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2508 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2658 "bison_parser.cpp"
         break;
 
-    case 278: /* binary_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2514 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_binary_expr: /* binary_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2664 "bison_parser.cpp"
         break;
 
-    case 279: /* logic_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2520 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_logic_expr: /* logic_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2670 "bison_parser.cpp"
         break;
 
-    case 280: /* in_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2526 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_in_expr: /* in_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2676 "bison_parser.cpp"
         break;
 
-    case 281: /* case_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2532 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_case_expr: /* case_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2682 "bison_parser.cpp"
         break;
 
-    case 282: /* case_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2538 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_case_list: /* case_list  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2688 "bison_parser.cpp"
         break;
 
-    case 283: /* exists_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2544 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_exists_expr: /* exists_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2694 "bison_parser.cpp"
         break;
 
-    case 284: /* comp_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2550 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_comp_expr: /* comp_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2700 "bison_parser.cpp"
         break;
 
-    case 285: /* function_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2556 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_function_expr: /* function_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2706 "bison_parser.cpp"
         break;
 
-    case 286: /* opt_window  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).window_description)); }
-#line 2562 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_window: /* opt_window  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).window_description)); }
+#line 2712 "bison_parser.cpp"
         break;
 
-    case 287: /* opt_partition  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_partition: /* opt_partition  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2571,156 +2721,156 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2575 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2725 "bison_parser.cpp"
         break;
 
-    case 288: /* opt_frame_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).frame_description)); }
-#line 2581 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).frame_description)); }
+#line 2731 "bison_parser.cpp"
         break;
 
-    case 289: /* frame_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2587 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_frame_type: /* frame_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2737 "bison_parser.cpp"
         break;
 
-    case 290: /* frame_bound  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).frame_bound)); }
-#line 2593 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_frame_bound: /* frame_bound  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).frame_bound)); }
+#line 2743 "bison_parser.cpp"
         break;
 
-    case 291: /* extract_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2599 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_extract_expr: /* extract_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2749 "bison_parser.cpp"
         break;
 
-    case 292: /* cast_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2605 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_cast_expr: /* cast_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2755 "bison_parser.cpp"
         break;
 
-    case 293: /* datetime_field  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2611 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_datetime_field: /* datetime_field  */
+#line 181 "bison_parser.y"
+            { }
+#line 2761 "bison_parser.cpp"
         break;
 
-    case 294: /* datetime_field_plural  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2617 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
+#line 181 "bison_parser.y"
+            { }
+#line 2767 "bison_parser.cpp"
         break;
 
-    case 295: /* duration_field  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2623 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_duration_field: /* duration_field  */
+#line 181 "bison_parser.y"
+            { }
+#line 2773 "bison_parser.cpp"
         break;
 
-    case 296: /* array_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2629 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_array_expr: /* array_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2779 "bison_parser.cpp"
         break;
 
-    case 297: /* array_index  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2635 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_array_index: /* array_index  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2785 "bison_parser.cpp"
         break;
 
-    case 298: /* between_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2641 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_between_expr: /* between_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2791 "bison_parser.cpp"
         break;
 
-    case 299: /* column_name  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2647 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_name: /* column_name  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2797 "bison_parser.cpp"
         break;
 
-    case 300: /* literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2653 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_literal: /* literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2803 "bison_parser.cpp"
         break;
 
-    case 301: /* string_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2659 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_string_literal: /* string_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2809 "bison_parser.cpp"
         break;
 
-    case 302: /* bool_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2665 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_bool_literal: /* bool_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2815 "bison_parser.cpp"
         break;
 
-    case 303: /* num_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2671 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_num_literal: /* num_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2821 "bison_parser.cpp"
         break;
 
-    case 304: /* int_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2677 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_int_literal: /* int_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2827 "bison_parser.cpp"
         break;
 
-    case 305: /* null_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2683 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_null_literal: /* null_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2833 "bison_parser.cpp"
         break;
 
-    case 306: /* date_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2689 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_date_literal: /* date_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2839 "bison_parser.cpp"
         break;
 
-    case 307: /* interval_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2695 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_interval_literal: /* interval_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2845 "bison_parser.cpp"
         break;
 
-    case 308: /* param_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2701 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_param_expr: /* param_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2851 "bison_parser.cpp"
         break;
 
-    case 309: /* table_ref  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2707 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref: /* table_ref  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2857 "bison_parser.cpp"
         break;
 
-    case 310: /* table_ref_atomic  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2713 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2863 "bison_parser.cpp"
         break;
 
-    case 311: /* nonjoin_table_ref_atomic  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2719 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2869 "bison_parser.cpp"
         break;
 
-    case 312: /* table_ref_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
       delete ptr;
@@ -2728,135 +2878,135 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 2732 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2882 "bison_parser.cpp"
         break;
 
-    case 313: /* table_ref_name  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2738 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_name: /* table_ref_name  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2888 "bison_parser.cpp"
         break;
 
-    case 314: /* table_ref_name_no_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2744 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2894 "bison_parser.cpp"
         break;
 
-    case 315: /* table_name  */
-#line 182 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_name: /* table_name  */
+#line 182 "bison_parser.y"
+            {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 2753 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2903 "bison_parser.cpp"
         break;
 
-    case 316: /* opt_index_name  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2759 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_index_name: /* opt_index_name  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2909 "bison_parser.cpp"
         break;
 
-    case 317: /* table_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2765 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_alias: /* table_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2915 "bison_parser.cpp"
         break;
 
-    case 318: /* opt_table_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2771 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2921 "bison_parser.cpp"
         break;
 
-    case 319: /* alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2777 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alias: /* alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2927 "bison_parser.cpp"
         break;
 
-    case 320: /* opt_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2783 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_alias: /* opt_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2933 "bison_parser.cpp"
         break;
 
-    case 321: /* opt_locking_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2789 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).locking_clause_vec)); }
+#line 2939 "bison_parser.cpp"
         break;
 
-    case 322: /* opt_locking_clause_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2795 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).locking_clause_vec)); }
+#line 2945 "bison_parser.cpp"
         break;
 
-    case 323: /* locking_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_t)); }
-#line 2801 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_locking_clause: /* locking_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).locking_t)); }
+#line 2951 "bison_parser.cpp"
         break;
 
-    case 324: /* row_lock_mode  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2807 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
+#line 181 "bison_parser.y"
+            { }
+#line 2957 "bison_parser.cpp"
         break;
 
-    case 325: /* opt_row_lock_policy  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2813 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
+#line 181 "bison_parser.y"
+            { }
+#line 2963 "bison_parser.cpp"
         break;
 
-    case 326: /* opt_with_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2819 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_vec)); }
+#line 2969 "bison_parser.cpp"
         break;
 
-    case 327: /* with_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2825 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_clause: /* with_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_vec)); }
+#line 2975 "bison_parser.cpp"
         break;
 
-    case 328: /* with_description_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2831 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_description_list: /* with_description_list  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_vec)); }
+#line 2981 "bison_parser.cpp"
         break;
 
-    case 329: /* with_description  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_t)); }
-#line 2837 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_description: /* with_description  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_t)); }
+#line 2987 "bison_parser.cpp"
         break;
 
-    case 330: /* join_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2843 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_join_clause: /* join_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2993 "bison_parser.cpp"
         break;
 
-    case 331: /* opt_join_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2849 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_join_type: /* opt_join_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2999 "bison_parser.cpp"
         break;
 
-    case 332: /* join_condition  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2855 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_join_condition: /* join_condition  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 3005 "bison_parser.cpp"
         break;
 
-    case 334: /* ident_commalist  */
-#line 186 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_ident_commalist: /* ident_commalist  */
+#line 186 "bison_parser.y"
+            {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
       free(ptr);
@@ -2864,10 +3014,9 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2868 "bison_parser.cpp" /* yacc.c:1257  */
+#line 3018 "bison_parser.cpp"
         break;
 
-
       default:
         break;
     }
@@ -2877,6 +3026,8 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
 
 
 
+
+
 /*----------.
 | yyparse.  |
 `----------*/
@@ -2884,7 +3035,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
 int
 yyparse (hsql::SQLParserResult* result, yyscan_t scanner)
 {
-/* The lookahead symbol.  */
+/* Lookahead token kind.  */
 int yychar;
 
 
@@ -2903,55 +3054,50 @@ static YYLTYPE yyloc_default
 YYLTYPE yylloc = yyloc_default;
 
     /* Number of syntax errors so far.  */
-    int yynerrs;
+    int yynerrs = 0;
 
-    int yystate;
+    yy_state_fast_t yystate = 0;
     /* Number of tokens to shift before error messages enabled.  */
-    int yyerrstatus;
-
-    /* The stacks and their tools:
-       'yyss': related to states.
-       'yyvs': related to semantic values.
-       'yyls': related to locations.
+    int yyerrstatus = 0;
 
-       Refer to the stacks through separate pointers, to allow yyoverflow
+    /* Refer to the stacks through separate pointers, to allow yyoverflow
        to reallocate them elsewhere.  */
 
-    /* The state stack.  */
-    yytype_int16 yyssa[YYINITDEPTH];
-    yytype_int16 *yyss;
-    yytype_int16 *yyssp;
+    /* Their size.  */
+    YYPTRDIFF_T yystacksize = YYINITDEPTH;
 
-    /* The semantic value stack.  */
+    /* The state stack: array, bottom, top.  */
+    yy_state_t yyssa[YYINITDEPTH];
+    yy_state_t *yyss = yyssa;
+    yy_state_t *yyssp = yyss;
+
+    /* The semantic value stack: array, bottom, top.  */
     YYSTYPE yyvsa[YYINITDEPTH];
-    YYSTYPE *yyvs;
-    YYSTYPE *yyvsp;
+    YYSTYPE *yyvs = yyvsa;
+    YYSTYPE *yyvsp = yyvs;
 
-    /* The location stack.  */
+    /* The location stack: array, bottom, top.  */
     YYLTYPE yylsa[YYINITDEPTH];
-    YYLTYPE *yyls;
-    YYLTYPE *yylsp;
-
-    /* The locations where the error started and ended.  */
-    YYLTYPE yyerror_range[3];
-
-    YYSIZE_T yystacksize;
+    YYLTYPE *yyls = yylsa;
+    YYLTYPE *yylsp = yyls;
 
   int yyn;
+  /* The return value of yyparse.  */
   int yyresult;
-  /* Lookahead token as an internal (translated) token number.  */
-  int yytoken = 0;
+  /* Lookahead symbol kind.  */
+  yysymbol_kind_t yytoken = YYSYMBOL_YYEMPTY;
   /* The variables used to return semantic value and location from the
      action routines.  */
   YYSTYPE yyval;
   YYLTYPE yyloc;
 
-#if YYERROR_VERBOSE
+  /* The locations where the error started and ended.  */
+  YYLTYPE yyerror_range[3];
+
   /* Buffer for error messages, and its allocated size.  */
   char yymsgbuf[128];
   char *yymsg = yymsgbuf;
-  YYSIZE_T yymsg_alloc = sizeof yymsgbuf;
-#endif
+  YYPTRDIFF_T yymsg_alloc = sizeof yymsgbuf;
 
 #define YYPOPSTACK(N)   (yyvsp -= (N), yyssp -= (N), yylsp -= (N))
 
@@ -2959,20 +3105,13 @@ YYLTYPE yylloc = yyloc_default;
      Keep to zero when no symbol should be popped.  */
   int yylen = 0;
 
-  yyssp = yyss = yyssa;
-  yyvsp = yyvs = yyvsa;
-  yylsp = yyls = yylsa;
-  yystacksize = YYINITDEPTH;
-
   YYDPRINTF ((stderr, "Starting parse\n"));
 
-  yystate = 0;
-  yyerrstatus = 0;
-  yynerrs = 0;
-  yychar = YYEMPTY; /* Cause a token to be read.  */
+  yychar = SQL_HSQL_EMPTY; /* Cause a token to be read.  */
+
 
 /* User initialization code.  */
-#line 81 "bison_parser.y" /* yacc.c:1429  */
+#line 81 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -2983,33 +3122,47 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 2987 "bison_parser.cpp" /* yacc.c:1429  */
+#line 3126 "bison_parser.cpp"
+
   yylsp[0] = yylloc;
   goto yysetstate;
 
+
 /*------------------------------------------------------------.
-| yynewstate -- Push a new state, which is found in yystate.  |
+| yynewstate -- push a new state, which is found in yystate.  |
 `------------------------------------------------------------*/
- yynewstate:
+yynewstate:
   /* In all cases, when you get here, the value and location stacks
      have just been pushed.  So pushing a state here evens the stacks.  */
   yyssp++;
 
- yysetstate:
-  *yyssp = yystate;
+
+/*--------------------------------------------------------------------.
+| yysetstate -- set current state (the top of the stack) to yystate.  |
+`--------------------------------------------------------------------*/
+yysetstate:
+  YYDPRINTF ((stderr, "Entering state %d\n", yystate));
+  YY_ASSERT (0 <= yystate && yystate < YYNSTATES);
+  YY_IGNORE_USELESS_CAST_BEGIN
+  *yyssp = YY_CAST (yy_state_t, yystate);
+  YY_IGNORE_USELESS_CAST_END
+  YY_STACK_PRINT (yyss, yyssp);
 
   if (yyss + yystacksize - 1 <= yyssp)
+#if !defined yyoverflow && !defined YYSTACK_RELOCATE
+    YYNOMEM;
+#else
     {
       /* Get the current used size of the three stacks, in elements.  */
-      YYSIZE_T yysize = yyssp - yyss + 1;
+      YYPTRDIFF_T yysize = yyssp - yyss + 1;
 
-#ifdef yyoverflow
+# if defined yyoverflow
       {
         /* Give user a chance to reallocate the stack.  Use copies of
            these so that the &'s don't force the real ones into
            memory.  */
+        yy_state_t *yyss1 = yyss;
         YYSTYPE *yyvs1 = yyvs;
-        yytype_int16 *yyss1 = yyss;
         YYLTYPE *yyls1 = yyls;
 
         /* Each stack pointer address is followed by the size of the
@@ -3017,32 +3170,29 @@ YYLTYPE yylloc = yyloc_default;
            conditional around just the two extra args, but that might
            be undefined if yyoverflow is a macro.  */
         yyoverflow (YY_("memory exhausted"),
-                    &yyss1, yysize * sizeof (*yyssp),
-                    &yyvs1, yysize * sizeof (*yyvsp),
-                    &yyls1, yysize * sizeof (*yylsp),
+                    &yyss1, yysize * YYSIZEOF (*yyssp),
+                    &yyvs1, yysize * YYSIZEOF (*yyvsp),
+                    &yyls1, yysize * YYSIZEOF (*yylsp),
                     &yystacksize);
-
-        yyls = yyls1;
         yyss = yyss1;
         yyvs = yyvs1;
+        yyls = yyls1;
       }
-#else /* no yyoverflow */
-# ifndef YYSTACK_RELOCATE
-      goto yyexhaustedlab;
-# else
+# else /* defined YYSTACK_RELOCATE */
       /* Extend the stack our own way.  */
       if (YYMAXDEPTH <= yystacksize)
-        goto yyexhaustedlab;
+        YYNOMEM;
       yystacksize *= 2;
       if (YYMAXDEPTH < yystacksize)
         yystacksize = YYMAXDEPTH;
 
       {
-        yytype_int16 *yyss1 = yyss;
+        yy_state_t *yyss1 = yyss;
         union yyalloc *yyptr =
-          (union yyalloc *) YYSTACK_ALLOC (YYSTACK_BYTES (yystacksize));
+          YY_CAST (union yyalloc *,
+                   YYSTACK_ALLOC (YY_CAST (YYSIZE_T, YYSTACK_BYTES (yystacksize))));
         if (! yyptr)
-          goto yyexhaustedlab;
+          YYNOMEM;
         YYSTACK_RELOCATE (yyss_alloc, yyss);
         YYSTACK_RELOCATE (yyvs_alloc, yyvs);
         YYSTACK_RELOCATE (yyls_alloc, yyls);
@@ -3051,31 +3201,32 @@ YYLTYPE yylloc = yyloc_default;
           YYSTACK_FREE (yyss1);
       }
 # endif
-#endif /* no yyoverflow */
 
       yyssp = yyss + yysize - 1;
       yyvsp = yyvs + yysize - 1;
       yylsp = yyls + yysize - 1;
 
-      YYDPRINTF ((stderr, "Stack size increased to %lu\n",
-                  (unsigned long int) yystacksize));
+      YY_IGNORE_USELESS_CAST_BEGIN
+      YYDPRINTF ((stderr, "Stack size increased to %ld\n",
+                  YY_CAST (long, yystacksize)));
+      YY_IGNORE_USELESS_CAST_END
 
       if (yyss + yystacksize - 1 <= yyssp)
         YYABORT;
     }
+#endif /* !defined yyoverflow && !defined YYSTACK_RELOCATE */
 
-  YYDPRINTF ((stderr, "Entering state %d\n", yystate));
 
   if (yystate == YYFINAL)
     YYACCEPT;
 
   goto yybackup;
 
+
 /*-----------.
 | yybackup.  |
 `-----------*/
 yybackup:
-
   /* Do appropriate processing given the current state.  Read a
      lookahead token if we need one and don't already have one.  */
 
@@ -3086,18 +3237,30 @@ yybackup:
 
   /* Not known => get a lookahead token if don't already have one.  */
 
-  /* YYCHAR is either YYEMPTY or YYEOF or a valid lookahead symbol.  */
-  if (yychar == YYEMPTY)
+  /* YYCHAR is either empty, or end-of-input, or a valid lookahead.  */
+  if (yychar == SQL_HSQL_EMPTY)
     {
-      YYDPRINTF ((stderr, "Reading a token: "));
+      YYDPRINTF ((stderr, "Reading a token\n"));
       yychar = yylex (&yylval, &yylloc, scanner);
     }
 
-  if (yychar <= YYEOF)
+  if (yychar <= SQL_YYEOF)
     {
-      yychar = yytoken = YYEOF;
+      yychar = SQL_YYEOF;
+      yytoken = YYSYMBOL_YYEOF;
       YYDPRINTF ((stderr, "Now at end of input.\n"));
     }
+  else if (yychar == SQL_HSQL_error)
+    {
+      /* The scanner already issued an error message, process directly
+         to error recovery.  But do not keep the error token as
+         lookahead, it is too special and may lead us to an endless
+         loop in error recovery. */
+      yychar = SQL_HSQL_UNDEF;
+      yytoken = YYSYMBOL_YYerror;
+      yyerror_range[1] = yylloc;
+      goto yyerrlab1;
+    }
   else
     {
       yytoken = YYTRANSLATE (yychar);
@@ -3125,15 +3288,14 @@ yybackup:
 
   /* Shift the lookahead token.  */
   YY_SYMBOL_PRINT ("Shifting", yytoken, &yylval, &yylloc);
-
-  /* Discard the shifted token.  */
-  yychar = YYEMPTY;
-
   yystate = yyn;
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
   *++yyvsp = yylval;
   YY_IGNORE_MAYBE_UNINITIALIZED_END
   *++yylsp = yylloc;
+
+  /* Discard the shifted token.  */
+  yychar = SQL_HSQL_EMPTY;
   goto yynewstate;
 
 
@@ -3148,7 +3310,7 @@ yydefault:
 
 
 /*-----------------------------.
-| yyreduce -- Do a reduction.  |
+| yyreduce -- do a reduction.  |
 `-----------------------------*/
 yyreduce:
   /* yyn is the number of a rule to reduce with.  */
@@ -3164,14 +3326,15 @@ yyreduce:
      GCC warning that YYVAL may be used uninitialized.  */
   yyval = yyvsp[1-yylen];
 
-  /* Default location.  */
+  /* Default location. */
   YYLLOC_DEFAULT (yyloc, (yylsp - yylen), yylen);
+  yyerror_range[1] = yyloc;
   YY_REDUCE_PRINT (yyn);
   switch (yyn)
     {
-        case 2:
-#line 343 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 2: /* input: statement_list opt_semicolon  */
+#line 346 "bison_parser.y"
+                                     {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
@@ -3188,237 +3351,237 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3192 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3355 "bison_parser.cpp"
     break;
 
-  case 3:
-#line 362 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 3: /* statement_list: statement  */
+#line 365 "bison_parser.y"
+                           {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3203 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3366 "bison_parser.cpp"
     break;
 
-  case 4:
-#line 368 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 4: /* statement_list: statement_list ';' statement  */
+#line 371 "bison_parser.y"
+                               {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3214 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3377 "bison_parser.cpp"
     break;
 
-  case 5:
-#line 375 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 5: /* statement: prepare_statement opt_hints  */
+#line 378 "bison_parser.y"
+                                        {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3223 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3386 "bison_parser.cpp"
     break;
 
-  case 6:
-#line 379 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 6: /* statement: preparable_statement opt_hints  */
+#line 382 "bison_parser.y"
+                                 {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3232 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3395 "bison_parser.cpp"
     break;
 
-  case 7:
-#line 383 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3238 "bison_parser.cpp" /* yacc.c:1646  */
+  case 7: /* statement: show_statement  */
+#line 386 "bison_parser.y"
+                 { (yyval.statement) = (yyvsp[0].show_stmt); }
+#line 3401 "bison_parser.cpp"
     break;
 
-  case 8:
-#line 384 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3244 "bison_parser.cpp" /* yacc.c:1646  */
+  case 8: /* statement: import_statement  */
+#line 387 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].import_stmt); }
+#line 3407 "bison_parser.cpp"
     break;
 
-  case 9:
-#line 385 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3250 "bison_parser.cpp" /* yacc.c:1646  */
+  case 9: /* statement: export_statement  */
+#line 388 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].export_stmt); }
+#line 3413 "bison_parser.cpp"
     break;
 
-  case 10:
-#line 387 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3256 "bison_parser.cpp" /* yacc.c:1646  */
+  case 10: /* preparable_statement: select_statement  */
+#line 390 "bison_parser.y"
+                                        { (yyval.statement) = (yyvsp[0].select_stmt); }
+#line 3419 "bison_parser.cpp"
     break;
 
-  case 11:
-#line 388 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3262 "bison_parser.cpp" /* yacc.c:1646  */
+  case 11: /* preparable_statement: create_statement  */
+#line 391 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].create_stmt); }
+#line 3425 "bison_parser.cpp"
     break;
 
-  case 12:
-#line 389 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3268 "bison_parser.cpp" /* yacc.c:1646  */
+  case 12: /* preparable_statement: insert_statement  */
+#line 392 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].insert_stmt); }
+#line 3431 "bison_parser.cpp"
     break;
 
-  case 13:
-#line 390 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3274 "bison_parser.cpp" /* yacc.c:1646  */
+  case 13: /* preparable_statement: delete_statement  */
+#line 393 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].delete_stmt); }
+#line 3437 "bison_parser.cpp"
     break;
 
-  case 14:
-#line 391 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3280 "bison_parser.cpp" /* yacc.c:1646  */
+  case 14: /* preparable_statement: truncate_statement  */
+#line 394 "bison_parser.y"
+                     { (yyval.statement) = (yyvsp[0].delete_stmt); }
+#line 3443 "bison_parser.cpp"
     break;
 
-  case 15:
-#line 392 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3286 "bison_parser.cpp" /* yacc.c:1646  */
+  case 15: /* preparable_statement: update_statement  */
+#line 395 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].update_stmt); }
+#line 3449 "bison_parser.cpp"
     break;
 
-  case 16:
-#line 393 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3292 "bison_parser.cpp" /* yacc.c:1646  */
+  case 16: /* preparable_statement: drop_statement  */
+#line 396 "bison_parser.y"
+                 { (yyval.statement) = (yyvsp[0].drop_stmt); }
+#line 3455 "bison_parser.cpp"
     break;
 
-  case 17:
-#line 394 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3298 "bison_parser.cpp" /* yacc.c:1646  */
+  case 17: /* preparable_statement: alter_statement  */
+#line 397 "bison_parser.y"
+                  { (yyval.statement) = (yyvsp[0].alter_stmt); }
+#line 3461 "bison_parser.cpp"
     break;
 
-  case 18:
-#line 395 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3304 "bison_parser.cpp" /* yacc.c:1646  */
+  case 18: /* preparable_statement: execute_statement  */
+#line 398 "bison_parser.y"
+                    { (yyval.statement) = (yyvsp[0].exec_stmt); }
+#line 3467 "bison_parser.cpp"
     break;
 
-  case 19:
-#line 396 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3310 "bison_parser.cpp" /* yacc.c:1646  */
+  case 19: /* preparable_statement: transaction_statement  */
+#line 399 "bison_parser.y"
+                        { (yyval.statement) = (yyvsp[0].transaction_stmt); }
+#line 3473 "bison_parser.cpp"
     break;
 
-  case 20:
-#line 402 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3316 "bison_parser.cpp" /* yacc.c:1646  */
+  case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
+#line 405 "bison_parser.y"
+                                        { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
+#line 3479 "bison_parser.cpp"
     break;
 
-  case 21:
-#line 403 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 3322 "bison_parser.cpp" /* yacc.c:1646  */
+  case 21: /* opt_hints: %empty  */
+#line 406 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 3485 "bison_parser.cpp"
     break;
 
-  case 22:
-#line 405 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 22: /* hint_list: hint  */
+#line 408 "bison_parser.y"
+                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3331 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3494 "bison_parser.cpp"
     break;
 
-  case 23:
-#line 409 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 23: /* hint_list: hint_list ',' hint  */
+#line 412 "bison_parser.y"
+                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3340 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3503 "bison_parser.cpp"
     break;
 
-  case 24:
-#line 414 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 24: /* hint: IDENTIFIER  */
+#line 417 "bison_parser.y"
+                  {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3349 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3512 "bison_parser.cpp"
     break;
 
-  case 25:
-#line 418 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
+#line 421 "bison_parser.y"
+                                           {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3359 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3522 "bison_parser.cpp"
     break;
 
-  case 26:
-#line 428 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3365 "bison_parser.cpp" /* yacc.c:1646  */
+  case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
+#line 431 "bison_parser.y"
+                                                      { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
+#line 3528 "bison_parser.cpp"
     break;
 
-  case 27:
-#line 429 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3371 "bison_parser.cpp" /* yacc.c:1646  */
+  case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
+#line 432 "bison_parser.y"
+                                   { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
+#line 3534 "bison_parser.cpp"
     break;
 
-  case 28:
-#line 430 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3377 "bison_parser.cpp" /* yacc.c:1646  */
+  case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
+#line 433 "bison_parser.y"
+                                 { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
+#line 3540 "bison_parser.cpp"
     break;
 
-  case 31:
-#line 438 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
+#line 441 "bison_parser.y"
+                                                                 {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3387 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3550 "bison_parser.cpp"
     break;
 
-  case 33:
-#line 446 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 33: /* execute_statement: EXECUTE IDENTIFIER  */
+#line 449 "bison_parser.y"
+                                       {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3396 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3559 "bison_parser.cpp"
     break;
 
-  case 34:
-#line 450 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
+#line 453 "bison_parser.y"
+                                                       {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3406 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3569 "bison_parser.cpp"
     break;
 
-  case 35:
-#line 462 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
+#line 465 "bison_parser.y"
+                                                                        {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3417 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3580 "bison_parser.cpp"
     break;
 
-  case 36:
-#line 468 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
+#line 471 "bison_parser.y"
+                                                                     {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[-4].table_name).schema;
@@ -3434,12 +3597,12 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3438 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3601 "bison_parser.cpp"
     break;
 
-  case 37:
-#line 485 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 37: /* file_type: IDENTIFIER  */
+#line 488 "bison_parser.y"
+                       {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
   } else if (strcasecmp((yyvsp[0].sval), "tbl") == 0) {
@@ -3453,36 +3616,36 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3457 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3620 "bison_parser.cpp"
     break;
 
-  case 38:
-#line 500 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3463 "bison_parser.cpp" /* yacc.c:1646  */
+  case 38: /* file_path: STRING  */
+#line 503 "bison_parser.y"
+                   { (yyval.sval) = (yyvsp[0].sval); }
+#line 3626 "bison_parser.cpp"
     break;
 
-  case 39:
-#line 502 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3469 "bison_parser.cpp" /* yacc.c:1646  */
+  case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
+#line 505 "bison_parser.y"
+                                                               { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
+#line 3632 "bison_parser.cpp"
     break;
 
-  case 40:
-#line 503 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3475 "bison_parser.cpp" /* yacc.c:1646  */
+  case 40: /* opt_import_export_options: '(' import_export_options ')'  */
+#line 506 "bison_parser.y"
+                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
+#line 3638 "bison_parser.cpp"
     break;
 
-  case 41:
-#line 504 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3481 "bison_parser.cpp" /* yacc.c:1646  */
+  case 41: /* opt_import_export_options: %empty  */
+#line 507 "bison_parser.y"
+              { (yyval.import_export_option_t) = new ImportExportOptions{}; }
+#line 3644 "bison_parser.cpp"
     break;
 
-  case 42:
-#line 506 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
+#line 509 "bison_parser.y"
+                                                                   {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
     yyerror(&yyloc, result, scanner, "File type must only be provided once.");
@@ -3496,21 +3659,21 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3500 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3663 "bison_parser.cpp"
     break;
 
-  case 43:
-#line 520 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 43: /* import_export_options: FORMAT file_type  */
+#line 523 "bison_parser.y"
+                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3509 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3672 "bison_parser.cpp"
     break;
 
-  case 44:
-#line 524 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
+#line 527 "bison_parser.y"
+                                            {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
     free((yyvsp[0].sval));
@@ -3520,21 +3683,21 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3524 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3687 "bison_parser.cpp"
     break;
 
-  case 45:
-#line 534 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 45: /* import_export_options: ENCODING STRING  */
+#line 537 "bison_parser.y"
+                  {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3533 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3696 "bison_parser.cpp"
     break;
 
-  case 46:
-#line 538 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 46: /* import_export_options: import_export_options ',' csv_option  */
+#line 541 "bison_parser.y"
+                                       {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
     free((yyvsp[0].csv_option_t)->second);
@@ -3558,24 +3721,24 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3562 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3725 "bison_parser.cpp"
     break;
 
-  case 47:
-#line 562 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 47: /* import_export_options: csv_option  */
+#line 565 "bison_parser.y"
+             {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
   (yyval.import_export_option_t)->csv_options->accept_csv_option((yyvsp[0].csv_option_t));
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3574 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3737 "bison_parser.cpp"
     break;
 
-  case 48:
-#line 570 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 48: /* csv_option: IDENTIFIER STRING  */
+#line 573 "bison_parser.y"
+                               {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
   } else if (strcasecmp((yyvsp[-1].sval), "QUOTE") == 0) {
@@ -3588,18 +3751,18 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3592 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3755 "bison_parser.cpp"
     break;
 
-  case 49:
-#line 583 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3598 "bison_parser.cpp" /* yacc.c:1646  */
+  case 49: /* csv_option: NULL STRING  */
+#line 586 "bison_parser.y"
+              { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
+#line 3761 "bison_parser.cpp"
     break;
 
-  case 50:
-#line 590 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
+#line 593 "bison_parser.y"
+                                                                          {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
   (yyval.export_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3614,12 +3777,12 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3618 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3781 "bison_parser.cpp"
     break;
 
-  case 51:
-#line 605 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
+#line 608 "bison_parser.y"
+                                                                {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
   (yyval.export_stmt)->select = (yyvsp[-3].select_stmt);
@@ -3633,38 +3796,38 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3637 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3800 "bison_parser.cpp"
     break;
 
-  case 52:
-#line 625 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3643 "bison_parser.cpp" /* yacc.c:1646  */
+  case 52: /* show_statement: SHOW TABLES  */
+#line 628 "bison_parser.y"
+                             { (yyval.show_stmt) = new ShowStatement(kShowTables); }
+#line 3806 "bison_parser.cpp"
     break;
 
-  case 53:
-#line 626 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 53: /* show_statement: SHOW COLUMNS table_name  */
+#line 629 "bison_parser.y"
+                          {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3653 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3816 "bison_parser.cpp"
     break;
 
-  case 54:
-#line 631 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 54: /* show_statement: DESCRIBE table_name  */
+#line 634 "bison_parser.y"
+                      {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3663 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3826 "bison_parser.cpp"
     break;
 
-  case 55:
-#line 642 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
+#line 645 "bison_parser.y"
+                                                                                         {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
   (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
@@ -3677,12 +3840,12 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3681 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3844 "bison_parser.cpp"
     break;
 
-  case 56:
-#line 655 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
+#line 658 "bison_parser.y"
+                                                                      {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
   (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3694,36 +3857,36 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3698 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3861 "bison_parser.cpp"
     break;
 
-  case 57:
-#line 667 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
+#line 670 "bison_parser.y"
+                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
   (yyval.create_stmt)->schema = (yyvsp[-2].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3710 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3873 "bison_parser.cpp"
     break;
 
-  case 58:
-#line 674 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
+#line 677 "bison_parser.y"
+                                                                                   {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-6].bval);
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3722 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3885 "bison_parser.cpp"
     break;
 
-  case 59:
-#line 681 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
+#line 684 "bison_parser.y"
+                                                                            {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
   (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3731,500 +3894,500 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3735 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3898 "bison_parser.cpp"
     break;
 
-  case 60:
-#line 690 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 3741 "bison_parser.cpp" /* yacc.c:1646  */
+  case 60: /* opt_not_exists: IF NOT EXISTS  */
+#line 693 "bison_parser.y"
+                               { (yyval.bval) = true; }
+#line 3904 "bison_parser.cpp"
     break;
 
-  case 61:
-#line 691 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 3747 "bison_parser.cpp" /* yacc.c:1646  */
+  case 61: /* opt_not_exists: %empty  */
+#line 694 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 3910 "bison_parser.cpp"
     break;
 
-  case 62:
-#line 693 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 62: /* table_elem_commalist: table_elem  */
+#line 696 "bison_parser.y"
+                                  {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3756 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3919 "bison_parser.cpp"
     break;
 
-  case 63:
-#line 697 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
+#line 700 "bison_parser.y"
+                                      {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3765 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3928 "bison_parser.cpp"
     break;
 
-  case 64:
-#line 702 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3771 "bison_parser.cpp" /* yacc.c:1646  */
+  case 64: /* table_elem: column_def  */
+#line 705 "bison_parser.y"
+                        { (yyval.table_element_t) = (yyvsp[0].column_t); }
+#line 3934 "bison_parser.cpp"
     break;
 
-  case 65:
-#line 703 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3777 "bison_parser.cpp" /* yacc.c:1646  */
+  case 65: /* table_elem: table_constraint  */
+#line 706 "bison_parser.y"
+                   { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
+#line 3940 "bison_parser.cpp"
     break;
 
-  case 66:
-#line 705 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
+#line 708 "bison_parser.y"
+                                                           {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
     yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{(yyvsp[-2].sval)}).c_str());
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 3789 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3952 "bison_parser.cpp"
     break;
 
-  case 67:
-#line 713 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3795 "bison_parser.cpp" /* yacc.c:1646  */
+  case 67: /* column_type: BIGINT  */
+#line 716 "bison_parser.y"
+                     { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
+#line 3958 "bison_parser.cpp"
     break;
 
-  case 68:
-#line 714 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 3801 "bison_parser.cpp" /* yacc.c:1646  */
+  case 68: /* column_type: BOOLEAN  */
+#line 717 "bison_parser.y"
+          { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
+#line 3964 "bison_parser.cpp"
     break;
 
-  case 69:
-#line 715 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 3807 "bison_parser.cpp" /* yacc.c:1646  */
+  case 69: /* column_type: CHAR '(' INTVAL ')'  */
+#line 718 "bison_parser.y"
+                      { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
+#line 3970 "bison_parser.cpp"
     break;
 
-  case 70:
-#line 716 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3813 "bison_parser.cpp" /* yacc.c:1646  */
+  case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
+#line 719 "bison_parser.y"
+                                   { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
+#line 3976 "bison_parser.cpp"
     break;
 
-  case 71:
-#line 717 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 3819 "bison_parser.cpp" /* yacc.c:1646  */
+  case 71: /* column_type: DATE  */
+#line 720 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
+#line 3982 "bison_parser.cpp"
     break;
 
-  case 72:
-#line 718 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3825 "bison_parser.cpp" /* yacc.c:1646  */
+  case 72: /* column_type: DATETIME  */
+#line 721 "bison_parser.y"
+           { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
+#line 3988 "bison_parser.cpp"
     break;
 
-  case 73:
-#line 719 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 73: /* column_type: DECIMAL opt_decimal_specification  */
+#line 722 "bison_parser.y"
+                                    {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 3834 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3997 "bison_parser.cpp"
     break;
 
-  case 74:
-#line 723 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 3840 "bison_parser.cpp" /* yacc.c:1646  */
+  case 74: /* column_type: DOUBLE  */
+#line 726 "bison_parser.y"
+         { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
+#line 4003 "bison_parser.cpp"
     break;
 
-  case 75:
-#line 724 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 3846 "bison_parser.cpp" /* yacc.c:1646  */
+  case 75: /* column_type: FLOAT  */
+#line 727 "bison_parser.y"
+        { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
+#line 4009 "bison_parser.cpp"
     break;
 
-  case 76:
-#line 725 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 3852 "bison_parser.cpp" /* yacc.c:1646  */
+  case 76: /* column_type: INT  */
+#line 728 "bison_parser.y"
+      { (yyval.column_type_t) = ColumnType{DataType::INT}; }
+#line 4015 "bison_parser.cpp"
     break;
 
-  case 77:
-#line 726 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 3858 "bison_parser.cpp" /* yacc.c:1646  */
+  case 77: /* column_type: INTEGER  */
+#line 729 "bison_parser.y"
+          { (yyval.column_type_t) = ColumnType{DataType::INT}; }
+#line 4021 "bison_parser.cpp"
     break;
 
-  case 78:
-#line 727 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 3864 "bison_parser.cpp" /* yacc.c:1646  */
+  case 78: /* column_type: LONG  */
+#line 730 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
+#line 4027 "bison_parser.cpp"
     break;
 
-  case 79:
-#line 728 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 3870 "bison_parser.cpp" /* yacc.c:1646  */
+  case 79: /* column_type: REAL  */
+#line 731 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
+#line 4033 "bison_parser.cpp"
     break;
 
-  case 80:
-#line 729 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 3876 "bison_parser.cpp" /* yacc.c:1646  */
+  case 80: /* column_type: SMALLINT  */
+#line 732 "bison_parser.y"
+           { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
+#line 4039 "bison_parser.cpp"
     break;
 
-  case 81:
-#line 730 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 3882 "bison_parser.cpp" /* yacc.c:1646  */
+  case 81: /* column_type: TEXT  */
+#line 733 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
+#line 4045 "bison_parser.cpp"
     break;
 
-  case 82:
-#line 731 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 3888 "bison_parser.cpp" /* yacc.c:1646  */
+  case 82: /* column_type: TIME opt_time_precision  */
+#line 734 "bison_parser.y"
+                          { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
+#line 4051 "bison_parser.cpp"
     break;
 
-  case 83:
-#line 732 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3894 "bison_parser.cpp" /* yacc.c:1646  */
+  case 83: /* column_type: TIMESTAMP  */
+#line 735 "bison_parser.y"
+            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
+#line 4057 "bison_parser.cpp"
     break;
 
-  case 84:
-#line 733 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3900 "bison_parser.cpp" /* yacc.c:1646  */
+  case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
+#line 736 "bison_parser.y"
+                         { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
+#line 4063 "bison_parser.cpp"
     break;
 
-  case 85:
-#line 735 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival) = (yyvsp[-1].ival); }
-#line 3906 "bison_parser.cpp" /* yacc.c:1646  */
+  case 85: /* opt_time_precision: '(' INTVAL ')'  */
+#line 738 "bison_parser.y"
+                                    { (yyval.ival) = (yyvsp[-1].ival); }
+#line 4069 "bison_parser.cpp"
     break;
 
-  case 86:
-#line 736 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival) = 0; }
-#line 3912 "bison_parser.cpp" /* yacc.c:1646  */
+  case 86: /* opt_time_precision: %empty  */
+#line 739 "bison_parser.y"
+              { (yyval.ival) = 0; }
+#line 4075 "bison_parser.cpp"
     break;
 
-  case 87:
-#line 738 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 3918 "bison_parser.cpp" /* yacc.c:1646  */
+  case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
+#line 741 "bison_parser.y"
+                                                      { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
+#line 4081 "bison_parser.cpp"
     break;
 
-  case 88:
-#line 739 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 3924 "bison_parser.cpp" /* yacc.c:1646  */
+  case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
+#line 742 "bison_parser.y"
+                 { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
+#line 4087 "bison_parser.cpp"
     break;
 
-  case 89:
-#line 740 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 3930 "bison_parser.cpp" /* yacc.c:1646  */
+  case 89: /* opt_decimal_specification: %empty  */
+#line 743 "bison_parser.y"
+              { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
+#line 4093 "bison_parser.cpp"
     break;
 
-  case 90:
-#line 742 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 3936 "bison_parser.cpp" /* yacc.c:1646  */
+  case 90: /* opt_column_constraints: column_constraints  */
+#line 745 "bison_parser.y"
+                                            { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
+#line 4099 "bison_parser.cpp"
     break;
 
-  case 91:
-#line 743 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 3942 "bison_parser.cpp" /* yacc.c:1646  */
+  case 91: /* opt_column_constraints: %empty  */
+#line 746 "bison_parser.y"
+              { (yyval.column_constraints_t) = new ColumnConstraints(); }
+#line 4105 "bison_parser.cpp"
     break;
 
-  case 92:
-#line 745 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 92: /* column_constraints: column_constraint  */
+#line 748 "bison_parser.y"
+                                       {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 3951 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4114 "bison_parser.cpp"
     break;
 
-  case 93:
-#line 749 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 93: /* column_constraints: column_constraints column_constraint  */
+#line 752 "bison_parser.y"
+                                       {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 3960 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4123 "bison_parser.cpp"
     break;
 
-  case 94:
-#line 753 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 94: /* column_constraints: references_spec  */
+#line 756 "bison_parser.y"
+                  {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 3970 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4133 "bison_parser.cpp"
     break;
 
-  case 95:
-#line 758 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 95: /* column_constraints: column_constraints references_spec  */
+#line 761 "bison_parser.y"
+                                     {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
   (yyvsp[-1].column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 3982 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4145 "bison_parser.cpp"
     break;
 
-  case 96:
-#line 766 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 3988 "bison_parser.cpp" /* yacc.c:1646  */
+  case 96: /* column_constraint: PRIMARY KEY  */
+#line 769 "bison_parser.y"
+                                { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
+#line 4151 "bison_parser.cpp"
     break;
 
-  case 97:
-#line 767 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 3994 "bison_parser.cpp" /* yacc.c:1646  */
+  case 97: /* column_constraint: UNIQUE  */
+#line 770 "bison_parser.y"
+         { (yyval.column_constraint_t) = ConstraintType::Unique; }
+#line 4157 "bison_parser.cpp"
     break;
 
-  case 98:
-#line 768 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4000 "bison_parser.cpp" /* yacc.c:1646  */
+  case 98: /* column_constraint: NULL  */
+#line 771 "bison_parser.y"
+       { (yyval.column_constraint_t) = ConstraintType::Null; }
+#line 4163 "bison_parser.cpp"
     break;
 
-  case 99:
-#line 769 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4006 "bison_parser.cpp" /* yacc.c:1646  */
+  case 99: /* column_constraint: NOT NULL  */
+#line 772 "bison_parser.y"
+           { (yyval.column_constraint_t) = ConstraintType::NotNull; }
+#line 4169 "bison_parser.cpp"
     break;
 
-  case 100:
-#line 771 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4012 "bison_parser.cpp" /* yacc.c:1646  */
+  case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
+#line 774 "bison_parser.y"
+                                                       { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
+#line 4175 "bison_parser.cpp"
     break;
 
-  case 101:
-#line 772 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4018 "bison_parser.cpp" /* yacc.c:1646  */
+  case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
+#line 775 "bison_parser.y"
+                                 { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
+#line 4181 "bison_parser.cpp"
     break;
 
-  case 102:
-#line 773 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4024 "bison_parser.cpp" /* yacc.c:1646  */
+  case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
+#line 776 "bison_parser.y"
+                                                      { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
+#line 4187 "bison_parser.cpp"
     break;
 
-  case 103:
-#line 775 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4030 "bison_parser.cpp" /* yacc.c:1646  */
+  case 103: /* references_spec: REFERENCES table_name opt_column_list  */
+#line 778 "bison_parser.y"
+                                                        { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
+#line 4193 "bison_parser.cpp"
     break;
 
-  case 104:
-#line 783 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
+#line 786 "bison_parser.y"
+                                                  {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4041 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4204 "bison_parser.cpp"
     break;
 
-  case 105:
-#line 789 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
+#line 792 "bison_parser.y"
+                                  {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4052 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4215 "bison_parser.cpp"
     break;
 
-  case 106:
-#line 795 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
+#line 798 "bison_parser.y"
+                                {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4062 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4225 "bison_parser.cpp"
     break;
 
-  case 107:
-#line 801 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
+#line 804 "bison_parser.y"
+                                   {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4072 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4235 "bison_parser.cpp"
     break;
 
-  case 108:
-#line 807 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4078 "bison_parser.cpp" /* yacc.c:1646  */
+  case 108: /* opt_exists: IF EXISTS  */
+#line 810 "bison_parser.y"
+                       { (yyval.bval) = true; }
+#line 4241 "bison_parser.cpp"
     break;
 
-  case 109:
-#line 808 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4084 "bison_parser.cpp" /* yacc.c:1646  */
+  case 109: /* opt_exists: %empty  */
+#line 811 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 4247 "bison_parser.cpp"
     break;
 
-  case 110:
-#line 815 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
+#line 818 "bison_parser.y"
+                                                                 {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4094 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4257 "bison_parser.cpp"
     break;
 
-  case 111:
-#line 821 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4100 "bison_parser.cpp" /* yacc.c:1646  */
+  case 111: /* alter_action: drop_action  */
+#line 824 "bison_parser.y"
+                           { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
+#line 4263 "bison_parser.cpp"
     break;
 
-  case 112:
-#line 823 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
+#line 826 "bison_parser.y"
+                                                {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4109 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4272 "bison_parser.cpp"
     break;
 
-  case 113:
-#line 833 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 113: /* delete_statement: DELETE FROM table_name opt_where  */
+#line 836 "bison_parser.y"
+                                                    {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4120 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4283 "bison_parser.cpp"
     break;
 
-  case 114:
-#line 840 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 114: /* truncate_statement: TRUNCATE table_name  */
+#line 843 "bison_parser.y"
+                                         {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4130 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4293 "bison_parser.cpp"
     break;
 
-  case 115:
-#line 851 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
+#line 854 "bison_parser.y"
+                                                                                               {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
   (yyval.insert_stmt)->tableName = (yyvsp[-5].table_name).name;
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4142 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4305 "bison_parser.cpp"
     break;
 
-  case 116:
-#line 858 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
+#line 861 "bison_parser.y"
+                                                         {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
   (yyval.insert_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4154 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4317 "bison_parser.cpp"
     break;
 
-  case 117:
-#line 866 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4160 "bison_parser.cpp" /* yacc.c:1646  */
+  case 117: /* opt_column_list: '(' ident_commalist ')'  */
+#line 869 "bison_parser.y"
+                                          { (yyval.str_vec) = (yyvsp[-1].str_vec); }
+#line 4323 "bison_parser.cpp"
     break;
 
-  case 118:
-#line 867 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.str_vec) = nullptr; }
-#line 4166 "bison_parser.cpp" /* yacc.c:1646  */
+  case 118: /* opt_column_list: %empty  */
+#line 870 "bison_parser.y"
+              { (yyval.str_vec) = nullptr; }
+#line 4329 "bison_parser.cpp"
     break;
 
-  case 119:
-#line 874 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
+#line 877 "bison_parser.y"
+                                                                                        {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4177 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4340 "bison_parser.cpp"
     break;
 
-  case 120:
-#line 881 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 120: /* update_clause_commalist: update_clause  */
+#line 884 "bison_parser.y"
+                                        {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4186 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4349 "bison_parser.cpp"
     break;
 
-  case 121:
-#line 885 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
+#line 888 "bison_parser.y"
+                                            {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4195 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4358 "bison_parser.cpp"
     break;
 
-  case 122:
-#line 890 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 122: /* update_clause: IDENTIFIER '=' expr  */
+#line 893 "bison_parser.y"
+                                    {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4205 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4368 "bison_parser.cpp"
     break;
 
-  case 123:
-#line 900 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 123: /* select_statement: opt_with_clause select_with_paren  */
+#line 903 "bison_parser.y"
+                                                     {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4214 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4377 "bison_parser.cpp"
     break;
 
-  case 124:
-#line 904 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 124: /* select_statement: opt_with_clause select_no_paren  */
+#line 907 "bison_parser.y"
+                                  {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4223 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4386 "bison_parser.cpp"
     break;
 
-  case 125:
-#line 908 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
+#line 911 "bison_parser.y"
+                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4235,18 +4398,18 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4239 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4402 "bison_parser.cpp"
     break;
 
-  case 128:
-#line 922 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4245 "bison_parser.cpp" /* yacc.c:1646  */
+  case 128: /* select_within_set_operation_no_parentheses: select_clause  */
+#line 925 "bison_parser.y"
+                                                           { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
+#line 4408 "bison_parser.cpp"
     break;
 
-  case 129:
-#line 923 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
+#line 926 "bison_parser.y"
+                                                         {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4254,24 +4417,24 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4258 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4421 "bison_parser.cpp"
     break;
 
-  case 130:
-#line 932 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4264 "bison_parser.cpp" /* yacc.c:1646  */
+  case 130: /* select_with_paren: '(' select_no_paren ')'  */
+#line 935 "bison_parser.y"
+                                            { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
+#line 4427 "bison_parser.cpp"
     break;
 
-  case 131:
-#line 933 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4270 "bison_parser.cpp" /* yacc.c:1646  */
+  case 131: /* select_with_paren: '(' select_with_paren ')'  */
+#line 936 "bison_parser.y"
+                            { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
+#line 4433 "bison_parser.cpp"
     break;
 
-  case 132:
-#line 935 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
+#line 938 "bison_parser.y"
+                                                                       {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
 
@@ -4285,12 +4448,12 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4289 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4452 "bison_parser.cpp"
     break;
 
-  case 133:
-#line 949 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
+#line 952 "bison_parser.y"
+                                                                                                {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4301,60 +4464,60 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4305 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4468 "bison_parser.cpp"
     break;
 
-  case 134:
-#line 961 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 134: /* set_operator: set_type opt_all  */
+#line 964 "bison_parser.y"
+                                {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4314 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4477 "bison_parser.cpp"
     break;
 
-  case 135:
-#line 966 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 135: /* set_type: UNION  */
+#line 969 "bison_parser.y"
+                 {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4323 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4486 "bison_parser.cpp"
     break;
 
-  case 136:
-#line 970 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 136: /* set_type: INTERSECT  */
+#line 973 "bison_parser.y"
+            {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4332 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4495 "bison_parser.cpp"
     break;
 
-  case 137:
-#line 974 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 137: /* set_type: EXCEPT  */
+#line 977 "bison_parser.y"
+         {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4341 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4504 "bison_parser.cpp"
     break;
 
-  case 138:
-#line 979 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4347 "bison_parser.cpp" /* yacc.c:1646  */
+  case 138: /* opt_all: ALL  */
+#line 982 "bison_parser.y"
+              { (yyval.bval) = true; }
+#line 4510 "bison_parser.cpp"
     break;
 
-  case 139:
-#line 980 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4353 "bison_parser.cpp" /* yacc.c:1646  */
+  case 139: /* opt_all: %empty  */
+#line 983 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 4516 "bison_parser.cpp"
     break;
 
-  case 140:
-#line 982 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
+#line 985 "bison_parser.y"
+                                                                                            {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
   (yyval.select_stmt)->selectDistinct = (yyvsp[-4].bval);
@@ -4363,142 +4526,142 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4367 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4530 "bison_parser.cpp"
     break;
 
-  case 141:
-#line 992 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4373 "bison_parser.cpp" /* yacc.c:1646  */
+  case 141: /* opt_distinct: DISTINCT  */
+#line 995 "bison_parser.y"
+                        { (yyval.bval) = true; }
+#line 4536 "bison_parser.cpp"
     break;
 
-  case 142:
-#line 993 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4379 "bison_parser.cpp" /* yacc.c:1646  */
+  case 142: /* opt_distinct: %empty  */
+#line 996 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 4542 "bison_parser.cpp"
     break;
 
-  case 144:
-#line 997 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = (yyvsp[0].table); }
-#line 4385 "bison_parser.cpp" /* yacc.c:1646  */
+  case 144: /* opt_from_clause: from_clause  */
+#line 1000 "bison_parser.y"
+                              { (yyval.table) = (yyvsp[0].table); }
+#line 4548 "bison_parser.cpp"
     break;
 
-  case 145:
-#line 998 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = nullptr; }
-#line 4391 "bison_parser.cpp" /* yacc.c:1646  */
+  case 145: /* opt_from_clause: %empty  */
+#line 1001 "bison_parser.y"
+              { (yyval.table) = nullptr; }
+#line 4554 "bison_parser.cpp"
     break;
 
-  case 146:
-#line 1000 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = (yyvsp[0].table); }
-#line 4397 "bison_parser.cpp" /* yacc.c:1646  */
+  case 146: /* from_clause: FROM table_ref  */
+#line 1003 "bison_parser.y"
+                             { (yyval.table) = (yyvsp[0].table); }
+#line 4560 "bison_parser.cpp"
     break;
 
-  case 147:
-#line 1002 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[0].expr); }
-#line 4403 "bison_parser.cpp" /* yacc.c:1646  */
+  case 147: /* opt_where: WHERE expr  */
+#line 1005 "bison_parser.y"
+                       { (yyval.expr) = (yyvsp[0].expr); }
+#line 4566 "bison_parser.cpp"
     break;
 
-  case 148:
-#line 1003 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = nullptr; }
-#line 4409 "bison_parser.cpp" /* yacc.c:1646  */
+  case 148: /* opt_where: %empty  */
+#line 1006 "bison_parser.y"
+              { (yyval.expr) = nullptr; }
+#line 4572 "bison_parser.cpp"
     break;
 
-  case 149:
-#line 1005 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 149: /* opt_group: GROUP BY expr_list opt_having  */
+#line 1008 "bison_parser.y"
+                                          {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4419 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4582 "bison_parser.cpp"
     break;
 
-  case 150:
-#line 1010 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.group_t) = nullptr; }
-#line 4425 "bison_parser.cpp" /* yacc.c:1646  */
+  case 150: /* opt_group: %empty  */
+#line 1013 "bison_parser.y"
+              { (yyval.group_t) = nullptr; }
+#line 4588 "bison_parser.cpp"
     break;
 
-  case 151:
-#line 1012 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[0].expr); }
-#line 4431 "bison_parser.cpp" /* yacc.c:1646  */
+  case 151: /* opt_having: HAVING expr  */
+#line 1015 "bison_parser.y"
+                         { (yyval.expr) = (yyvsp[0].expr); }
+#line 4594 "bison_parser.cpp"
     break;
 
-  case 152:
-#line 1013 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = nullptr; }
-#line 4437 "bison_parser.cpp" /* yacc.c:1646  */
+  case 152: /* opt_having: %empty  */
+#line 1016 "bison_parser.y"
+              { (yyval.expr) = nullptr; }
+#line 4600 "bison_parser.cpp"
     break;
 
-  case 153:
-#line 1015 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4443 "bison_parser.cpp" /* yacc.c:1646  */
+  case 153: /* opt_order: ORDER BY order_list  */
+#line 1018 "bison_parser.y"
+                                { (yyval.order_vec) = (yyvsp[0].order_vec); }
+#line 4606 "bison_parser.cpp"
     break;
 
-  case 154:
-#line 1016 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_vec) = nullptr; }
-#line 4449 "bison_parser.cpp" /* yacc.c:1646  */
+  case 154: /* opt_order: %empty  */
+#line 1019 "bison_parser.y"
+              { (yyval.order_vec) = nullptr; }
+#line 4612 "bison_parser.cpp"
     break;
 
-  case 155:
-#line 1018 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 155: /* order_list: order_desc  */
+#line 1021 "bison_parser.y"
+                        {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4458 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4621 "bison_parser.cpp"
     break;
 
-  case 156:
-#line 1022 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 156: /* order_list: order_list ',' order_desc  */
+#line 1025 "bison_parser.y"
+                            {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4467 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4630 "bison_parser.cpp"
     break;
 
-  case 157:
-#line 1027 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4473 "bison_parser.cpp" /* yacc.c:1646  */
+  case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
+#line 1030 "bison_parser.y"
+                                                   { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
+#line 4636 "bison_parser.cpp"
     break;
 
-  case 158:
-#line 1029 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderAsc; }
-#line 4479 "bison_parser.cpp" /* yacc.c:1646  */
+  case 158: /* opt_order_type: ASC  */
+#line 1032 "bison_parser.y"
+                     { (yyval.order_type) = kOrderAsc; }
+#line 4642 "bison_parser.cpp"
     break;
 
-  case 159:
-#line 1030 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderDesc; }
-#line 4485 "bison_parser.cpp" /* yacc.c:1646  */
+  case 159: /* opt_order_type: DESC  */
+#line 1033 "bison_parser.y"
+       { (yyval.order_type) = kOrderDesc; }
+#line 4648 "bison_parser.cpp"
     break;
 
-  case 160:
-#line 1031 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderAsc; }
-#line 4491 "bison_parser.cpp" /* yacc.c:1646  */
+  case 160: /* opt_order_type: %empty  */
+#line 1034 "bison_parser.y"
+              { (yyval.order_type) = kOrderAsc; }
+#line 4654 "bison_parser.cpp"
     break;
 
-  case 161:
-#line 1033 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4497 "bison_parser.cpp" /* yacc.c:1646  */
+  case 161: /* opt_null_ordering: %empty  */
+#line 1036 "bison_parser.y"
+                                { (yyval.null_ordering_t) = NullOrdering::Undefined; }
+#line 4660 "bison_parser.cpp"
     break;
 
-  case 162:
-#line 1034 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
+#line 1037 "bison_parser.y"
+                        {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
     if (strcasecmp((yyvsp[0].sval), "first") == 0) {
@@ -4517,116 +4680,116 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4521 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4684 "bison_parser.cpp"
     break;
 
-  case 163:
-#line 1056 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4527 "bison_parser.cpp" /* yacc.c:1646  */
+  case 163: /* opt_top: TOP int_literal  */
+#line 1059 "bison_parser.y"
+                          { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
+#line 4690 "bison_parser.cpp"
     break;
 
-  case 164:
-#line 1057 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = nullptr; }
-#line 4533 "bison_parser.cpp" /* yacc.c:1646  */
+  case 164: /* opt_top: %empty  */
+#line 1060 "bison_parser.y"
+              { (yyval.limit) = nullptr; }
+#line 4696 "bison_parser.cpp"
     break;
 
-  case 165:
-#line 1059 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4539 "bison_parser.cpp" /* yacc.c:1646  */
+  case 165: /* opt_limit: LIMIT expr  */
+#line 1062 "bison_parser.y"
+                       { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
+#line 4702 "bison_parser.cpp"
     break;
 
-  case 166:
-#line 1060 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4545 "bison_parser.cpp" /* yacc.c:1646  */
+  case 166: /* opt_limit: OFFSET expr  */
+#line 1063 "bison_parser.y"
+              { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
+#line 4708 "bison_parser.cpp"
     break;
 
-  case 167:
-#line 1061 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4551 "bison_parser.cpp" /* yacc.c:1646  */
+  case 167: /* opt_limit: LIMIT expr OFFSET expr  */
+#line 1064 "bison_parser.y"
+                         { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
+#line 4714 "bison_parser.cpp"
     break;
 
-  case 168:
-#line 1062 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4557 "bison_parser.cpp" /* yacc.c:1646  */
+  case 168: /* opt_limit: LIMIT ALL  */
+#line 1065 "bison_parser.y"
+            { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
+#line 4720 "bison_parser.cpp"
     break;
 
-  case 169:
-#line 1063 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4563 "bison_parser.cpp" /* yacc.c:1646  */
+  case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
+#line 1066 "bison_parser.y"
+                        { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
+#line 4726 "bison_parser.cpp"
     break;
 
-  case 170:
-#line 1064 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = nullptr; }
-#line 4569 "bison_parser.cpp" /* yacc.c:1646  */
+  case 170: /* opt_limit: %empty  */
+#line 1067 "bison_parser.y"
+              { (yyval.limit) = nullptr; }
+#line 4732 "bison_parser.cpp"
     break;
 
-  case 171:
-#line 1069 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 171: /* expr_list: expr_alias  */
+#line 1072 "bison_parser.y"
+                       {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4578 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4741 "bison_parser.cpp"
     break;
 
-  case 172:
-#line 1073 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 172: /* expr_list: expr_list ',' expr_alias  */
+#line 1076 "bison_parser.y"
+                           {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4587 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4750 "bison_parser.cpp"
     break;
 
-  case 173:
-#line 1079 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4593 "bison_parser.cpp" /* yacc.c:1646  */
+  case 173: /* opt_extended_literal_list: extended_literal_list  */
+#line 1082 "bison_parser.y"
+                                                  { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
+#line 4756 "bison_parser.cpp"
     break;
 
-  case 174:
-#line 1080 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 4599 "bison_parser.cpp" /* yacc.c:1646  */
+  case 174: /* opt_extended_literal_list: %empty  */
+#line 1083 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 4762 "bison_parser.cpp"
     break;
 
-  case 175:
-#line 1082 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 175: /* extended_literal_list: casted_extended_literal  */
+#line 1085 "bison_parser.y"
+                                                {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4608 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4771 "bison_parser.cpp"
     break;
 
-  case 176:
-#line 1086 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
+#line 1089 "bison_parser.y"
+                                                    {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4617 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4780 "bison_parser.cpp"
     break;
 
-  case 178:
-#line 1091 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
+#line 1094 "bison_parser.y"
+                                                                                          {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4625 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4788 "bison_parser.cpp"
     break;
 
-  case 179:
-#line 1095 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 179: /* extended_literal: literal  */
+#line 1098 "bison_parser.y"
+                           {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
     yyerror(&yyloc, result, scanner, "Parameter ? is not a valid literal.");
@@ -4634,24 +4797,24 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4638 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4801 "bison_parser.cpp"
     break;
 
-  case 180:
-#line 1103 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4644 "bison_parser.cpp" /* yacc.c:1646  */
+  case 180: /* extended_literal: '-' num_literal  */
+#line 1106 "bison_parser.y"
+                  { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 4807 "bison_parser.cpp"
     break;
 
-  case 181:
-#line 1104 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4650 "bison_parser.cpp" /* yacc.c:1646  */
+  case 181: /* extended_literal: '-' interval_literal  */
+#line 1107 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 4813 "bison_parser.cpp"
     break;
 
-  case 182:
-#line 1106 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 182: /* expr_alias: expr opt_alias  */
+#line 1109 "bison_parser.y"
+                            {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
     (yyval.expr)->alias = (yyvsp[0].alias_t)->name;
@@ -4659,520 +4822,520 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4663 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4826 "bison_parser.cpp"
     break;
 
-  case 188:
-#line 1117 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4669 "bison_parser.cpp" /* yacc.c:1646  */
+  case 188: /* operand: '(' expr ')'  */
+#line 1120 "bison_parser.y"
+                       { (yyval.expr) = (yyvsp[-1].expr); }
+#line 4832 "bison_parser.cpp"
     break;
 
-  case 198:
-#line 1119 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 198: /* operand: '(' select_no_paren ')'  */
+#line 1122 "bison_parser.y"
+                                         {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4677 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4840 "bison_parser.cpp"
     break;
 
-  case 201:
-#line 1125 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4683 "bison_parser.cpp" /* yacc.c:1646  */
+  case 201: /* unary_expr: '-' operand  */
+#line 1128 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 4846 "bison_parser.cpp"
     break;
 
-  case 202:
-#line 1126 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4689 "bison_parser.cpp" /* yacc.c:1646  */
+  case 202: /* unary_expr: NOT operand  */
+#line 1129 "bison_parser.y"
+              { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 4852 "bison_parser.cpp"
     break;
 
-  case 203:
-#line 1127 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4695 "bison_parser.cpp" /* yacc.c:1646  */
+  case 203: /* unary_expr: operand ISNULL  */
+#line 1130 "bison_parser.y"
+                 { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
+#line 4858 "bison_parser.cpp"
     break;
 
-  case 204:
-#line 1128 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4701 "bison_parser.cpp" /* yacc.c:1646  */
+  case 204: /* unary_expr: operand IS NULL  */
+#line 1131 "bison_parser.y"
+                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
+#line 4864 "bison_parser.cpp"
     break;
 
-  case 205:
-#line 1129 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4707 "bison_parser.cpp" /* yacc.c:1646  */
+  case 205: /* unary_expr: operand IS NOT NULL  */
+#line 1132 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
+#line 4870 "bison_parser.cpp"
     break;
 
-  case 207:
-#line 1131 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4713 "bison_parser.cpp" /* yacc.c:1646  */
+  case 207: /* binary_expr: operand '-' operand  */
+#line 1134 "bison_parser.y"
+                                              { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
+#line 4876 "bison_parser.cpp"
     break;
 
-  case 208:
-#line 1132 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4719 "bison_parser.cpp" /* yacc.c:1646  */
+  case 208: /* binary_expr: operand '+' operand  */
+#line 1135 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
+#line 4882 "bison_parser.cpp"
     break;
 
-  case 209:
-#line 1133 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4725 "bison_parser.cpp" /* yacc.c:1646  */
+  case 209: /* binary_expr: operand '/' operand  */
+#line 1136 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
+#line 4888 "bison_parser.cpp"
     break;
 
-  case 210:
-#line 1134 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4731 "bison_parser.cpp" /* yacc.c:1646  */
+  case 210: /* binary_expr: operand '*' operand  */
+#line 1137 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
+#line 4894 "bison_parser.cpp"
     break;
 
-  case 211:
-#line 1135 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4737 "bison_parser.cpp" /* yacc.c:1646  */
+  case 211: /* binary_expr: operand '%' operand  */
+#line 1138 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
+#line 4900 "bison_parser.cpp"
     break;
 
-  case 212:
-#line 1136 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4743 "bison_parser.cpp" /* yacc.c:1646  */
+  case 212: /* binary_expr: operand '^' operand  */
+#line 1139 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
+#line 4906 "bison_parser.cpp"
     break;
 
-  case 213:
-#line 1137 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4749 "bison_parser.cpp" /* yacc.c:1646  */
+  case 213: /* binary_expr: operand LIKE operand  */
+#line 1140 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
+#line 4912 "bison_parser.cpp"
     break;
 
-  case 214:
-#line 1138 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4755 "bison_parser.cpp" /* yacc.c:1646  */
+  case 214: /* binary_expr: operand NOT LIKE operand  */
+#line 1141 "bison_parser.y"
+                           { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
+#line 4918 "bison_parser.cpp"
     break;
 
-  case 215:
-#line 1139 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4761 "bison_parser.cpp" /* yacc.c:1646  */
+  case 215: /* binary_expr: operand ILIKE operand  */
+#line 1142 "bison_parser.y"
+                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
+#line 4924 "bison_parser.cpp"
     break;
 
-  case 216:
-#line 1140 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4767 "bison_parser.cpp" /* yacc.c:1646  */
+  case 216: /* binary_expr: operand CONCAT operand  */
+#line 1143 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
+#line 4930 "bison_parser.cpp"
     break;
 
-  case 217:
-#line 1142 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4773 "bison_parser.cpp" /* yacc.c:1646  */
+  case 217: /* logic_expr: expr AND expr  */
+#line 1145 "bison_parser.y"
+                           { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
+#line 4936 "bison_parser.cpp"
     break;
 
-  case 218:
-#line 1143 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4779 "bison_parser.cpp" /* yacc.c:1646  */
+  case 218: /* logic_expr: expr OR expr  */
+#line 1146 "bison_parser.y"
+               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
+#line 4942 "bison_parser.cpp"
     break;
 
-  case 219:
-#line 1145 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4785 "bison_parser.cpp" /* yacc.c:1646  */
+  case 219: /* in_expr: operand IN '(' expr_list ')'  */
+#line 1148 "bison_parser.y"
+                                       { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
+#line 4948 "bison_parser.cpp"
     break;
 
-  case 220:
-#line 1146 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4791 "bison_parser.cpp" /* yacc.c:1646  */
+  case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
+#line 1149 "bison_parser.y"
+                                   { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
+#line 4954 "bison_parser.cpp"
     break;
 
-  case 221:
-#line 1147 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 4797 "bison_parser.cpp" /* yacc.c:1646  */
+  case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
+#line 1150 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
+#line 4960 "bison_parser.cpp"
     break;
 
-  case 222:
-#line 1148 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 4803 "bison_parser.cpp" /* yacc.c:1646  */
+  case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
+#line 1151 "bison_parser.y"
+                                         { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
+#line 4966 "bison_parser.cpp"
     break;
 
-  case 223:
-#line 1152 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 4809 "bison_parser.cpp" /* yacc.c:1646  */
+  case 223: /* case_expr: CASE expr case_list END  */
+#line 1155 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
+#line 4972 "bison_parser.cpp"
     break;
 
-  case 224:
-#line 1153 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4815 "bison_parser.cpp" /* yacc.c:1646  */
+  case 224: /* case_expr: CASE expr case_list ELSE expr END  */
+#line 1156 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
+#line 4978 "bison_parser.cpp"
     break;
 
-  case 225:
-#line 1154 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 4821 "bison_parser.cpp" /* yacc.c:1646  */
+  case 225: /* case_expr: CASE case_list END  */
+#line 1157 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
+#line 4984 "bison_parser.cpp"
     break;
 
-  case 226:
-#line 1155 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4827 "bison_parser.cpp" /* yacc.c:1646  */
+  case 226: /* case_expr: CASE case_list ELSE expr END  */
+#line 1158 "bison_parser.y"
+                               { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
+#line 4990 "bison_parser.cpp"
     break;
 
-  case 227:
-#line 1157 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4833 "bison_parser.cpp" /* yacc.c:1646  */
+  case 227: /* case_list: WHEN expr THEN expr  */
+#line 1160 "bison_parser.y"
+                                { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
+#line 4996 "bison_parser.cpp"
     break;
 
-  case 228:
-#line 1158 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4839 "bison_parser.cpp" /* yacc.c:1646  */
+  case 228: /* case_list: case_list WHEN expr THEN expr  */
+#line 1161 "bison_parser.y"
+                                { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
+#line 5002 "bison_parser.cpp"
     break;
 
-  case 229:
-#line 1160 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 4845 "bison_parser.cpp" /* yacc.c:1646  */
+  case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
+#line 1163 "bison_parser.y"
+                                             { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
+#line 5008 "bison_parser.cpp"
     break;
 
-  case 230:
-#line 1161 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 4851 "bison_parser.cpp" /* yacc.c:1646  */
+  case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
+#line 1164 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
+#line 5014 "bison_parser.cpp"
     break;
 
-  case 231:
-#line 1163 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 4857 "bison_parser.cpp" /* yacc.c:1646  */
+  case 231: /* comp_expr: operand '=' operand  */
+#line 1166 "bison_parser.y"
+                                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
+#line 5020 "bison_parser.cpp"
     break;
 
-  case 232:
-#line 1164 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 4863 "bison_parser.cpp" /* yacc.c:1646  */
+  case 232: /* comp_expr: operand EQUALS operand  */
+#line 1167 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
+#line 5026 "bison_parser.cpp"
     break;
 
-  case 233:
-#line 1165 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 4869 "bison_parser.cpp" /* yacc.c:1646  */
+  case 233: /* comp_expr: operand NOTEQUALS operand  */
+#line 1168 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
+#line 5032 "bison_parser.cpp"
     break;
 
-  case 234:
-#line 1166 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 4875 "bison_parser.cpp" /* yacc.c:1646  */
+  case 234: /* comp_expr: operand '<' operand  */
+#line 1169 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
+#line 5038 "bison_parser.cpp"
     break;
 
-  case 235:
-#line 1167 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 4881 "bison_parser.cpp" /* yacc.c:1646  */
+  case 235: /* comp_expr: operand '>' operand  */
+#line 1170 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
+#line 5044 "bison_parser.cpp"
     break;
 
-  case 236:
-#line 1168 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 4887 "bison_parser.cpp" /* yacc.c:1646  */
+  case 236: /* comp_expr: operand LESSEQ operand  */
+#line 1171 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
+#line 5050 "bison_parser.cpp"
     break;
 
-  case 237:
-#line 1169 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 4893 "bison_parser.cpp" /* yacc.c:1646  */
+  case 237: /* comp_expr: operand GREATEREQ operand  */
+#line 1172 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
+#line 5056 "bison_parser.cpp"
     break;
 
-  case 238:
-#line 1173 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 4899 "bison_parser.cpp" /* yacc.c:1646  */
+  case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
+#line 1176 "bison_parser.y"
+                                              { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
+#line 5062 "bison_parser.cpp"
     break;
 
-  case 239:
-#line 1174 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 4905 "bison_parser.cpp" /* yacc.c:1646  */
+  case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1177 "bison_parser.y"
+                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
+#line 5068 "bison_parser.cpp"
     break;
 
-  case 240:
-#line 1175 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 4911 "bison_parser.cpp" /* yacc.c:1646  */
+  case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
+#line 1178 "bison_parser.y"
+                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
+#line 5074 "bison_parser.cpp"
     break;
 
-  case 241:
-#line 1176 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 4917 "bison_parser.cpp" /* yacc.c:1646  */
+  case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1179 "bison_parser.y"
+                                                                      { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
+#line 5080 "bison_parser.cpp"
     break;
 
-  case 242:
-#line 1180 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 4923 "bison_parser.cpp" /* yacc.c:1646  */
+  case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
+#line 1183 "bison_parser.y"
+                                                                   { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
+#line 5086 "bison_parser.cpp"
     break;
 
-  case 243:
-#line 1181 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.window_description) = nullptr; }
-#line 4929 "bison_parser.cpp" /* yacc.c:1646  */
+  case 243: /* opt_window: %empty  */
+#line 1184 "bison_parser.y"
+              { (yyval.window_description) = nullptr; }
+#line 5092 "bison_parser.cpp"
     break;
 
-  case 244:
-#line 1183 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4935 "bison_parser.cpp" /* yacc.c:1646  */
+  case 244: /* opt_partition: PARTITION BY expr_list  */
+#line 1186 "bison_parser.y"
+                                       { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
+#line 5098 "bison_parser.cpp"
     break;
 
-  case 245:
-#line 1184 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 4941 "bison_parser.cpp" /* yacc.c:1646  */
+  case 245: /* opt_partition: %empty  */
+#line 1187 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 5104 "bison_parser.cpp"
     break;
 
-  case 246:
-#line 1189 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 4947 "bison_parser.cpp" /* yacc.c:1646  */
+  case 246: /* opt_frame_clause: frame_type frame_bound  */
+#line 1192 "bison_parser.y"
+                                          { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
+#line 5110 "bison_parser.cpp"
     break;
 
-  case 247:
-#line 1190 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 4953 "bison_parser.cpp" /* yacc.c:1646  */
+  case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
+#line 1193 "bison_parser.y"
+                                                 { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
+#line 5116 "bison_parser.cpp"
     break;
 
-  case 248:
-#line 1191 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 248: /* opt_frame_clause: %empty  */
+#line 1194 "bison_parser.y"
+              {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 4961 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5124 "bison_parser.cpp"
     break;
 
-  case 249:
-#line 1195 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kRange; }
-#line 4967 "bison_parser.cpp" /* yacc.c:1646  */
+  case 249: /* frame_type: RANGE  */
+#line 1198 "bison_parser.y"
+                   { (yyval.frame_type) = kRange; }
+#line 5130 "bison_parser.cpp"
     break;
 
-  case 250:
-#line 1196 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kRows; }
-#line 4973 "bison_parser.cpp" /* yacc.c:1646  */
+  case 250: /* frame_type: ROWS  */
+#line 1199 "bison_parser.y"
+       { (yyval.frame_type) = kRows; }
+#line 5136 "bison_parser.cpp"
     break;
 
-  case 251:
-#line 1197 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kGroups; }
-#line 4979 "bison_parser.cpp" /* yacc.c:1646  */
+  case 251: /* frame_type: GROUPS  */
+#line 1200 "bison_parser.y"
+         { (yyval.frame_type) = kGroups; }
+#line 5142 "bison_parser.cpp"
     break;
 
-  case 252:
-#line 1199 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 4985 "bison_parser.cpp" /* yacc.c:1646  */
+  case 252: /* frame_bound: UNBOUNDED PRECEDING  */
+#line 1202 "bison_parser.y"
+                                  { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
+#line 5148 "bison_parser.cpp"
     break;
 
-  case 253:
-#line 1200 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 4991 "bison_parser.cpp" /* yacc.c:1646  */
+  case 253: /* frame_bound: INTVAL PRECEDING  */
+#line 1203 "bison_parser.y"
+                   { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
+#line 5154 "bison_parser.cpp"
     break;
 
-  case 254:
-#line 1201 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 4997 "bison_parser.cpp" /* yacc.c:1646  */
+  case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
+#line 1204 "bison_parser.y"
+                      { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
+#line 5160 "bison_parser.cpp"
     break;
 
-  case 255:
-#line 1202 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5003 "bison_parser.cpp" /* yacc.c:1646  */
+  case 255: /* frame_bound: INTVAL FOLLOWING  */
+#line 1205 "bison_parser.y"
+                   { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
+#line 5166 "bison_parser.cpp"
     break;
 
-  case 256:
-#line 1203 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5009 "bison_parser.cpp" /* yacc.c:1646  */
+  case 256: /* frame_bound: CURRENT_ROW  */
+#line 1206 "bison_parser.y"
+              { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
+#line 5172 "bison_parser.cpp"
     break;
 
-  case 257:
-#line 1205 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5015 "bison_parser.cpp" /* yacc.c:1646  */
+  case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
+#line 1208 "bison_parser.y"
+                                                        { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
+#line 5178 "bison_parser.cpp"
     break;
 
-  case 258:
-#line 1207 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5021 "bison_parser.cpp" /* yacc.c:1646  */
+  case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
+#line 1210 "bison_parser.y"
+                                             { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
+#line 5184 "bison_parser.cpp"
     break;
 
-  case 259:
-#line 1209 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5027 "bison_parser.cpp" /* yacc.c:1646  */
+  case 259: /* datetime_field: SECOND  */
+#line 1212 "bison_parser.y"
+                        { (yyval.datetime_field) = kDatetimeSecond; }
+#line 5190 "bison_parser.cpp"
     break;
 
-  case 260:
-#line 1210 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5033 "bison_parser.cpp" /* yacc.c:1646  */
+  case 260: /* datetime_field: MINUTE  */
+#line 1213 "bison_parser.y"
+         { (yyval.datetime_field) = kDatetimeMinute; }
+#line 5196 "bison_parser.cpp"
     break;
 
-  case 261:
-#line 1211 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeHour; }
-#line 5039 "bison_parser.cpp" /* yacc.c:1646  */
+  case 261: /* datetime_field: HOUR  */
+#line 1214 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeHour; }
+#line 5202 "bison_parser.cpp"
     break;
 
-  case 262:
-#line 1212 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeDay; }
-#line 5045 "bison_parser.cpp" /* yacc.c:1646  */
+  case 262: /* datetime_field: DAY  */
+#line 1215 "bison_parser.y"
+      { (yyval.datetime_field) = kDatetimeDay; }
+#line 5208 "bison_parser.cpp"
     break;
 
-  case 263:
-#line 1213 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5051 "bison_parser.cpp" /* yacc.c:1646  */
+  case 263: /* datetime_field: MONTH  */
+#line 1216 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeMonth; }
+#line 5214 "bison_parser.cpp"
     break;
 
-  case 264:
-#line 1214 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeYear; }
-#line 5057 "bison_parser.cpp" /* yacc.c:1646  */
+  case 264: /* datetime_field: YEAR  */
+#line 1217 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeYear; }
+#line 5220 "bison_parser.cpp"
     break;
 
-  case 265:
-#line 1216 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5063 "bison_parser.cpp" /* yacc.c:1646  */
+  case 265: /* datetime_field_plural: SECONDS  */
+#line 1219 "bison_parser.y"
+                                { (yyval.datetime_field) = kDatetimeSecond; }
+#line 5226 "bison_parser.cpp"
     break;
 
-  case 266:
-#line 1217 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5069 "bison_parser.cpp" /* yacc.c:1646  */
+  case 266: /* datetime_field_plural: MINUTES  */
+#line 1220 "bison_parser.y"
+          { (yyval.datetime_field) = kDatetimeMinute; }
+#line 5232 "bison_parser.cpp"
     break;
 
-  case 267:
-#line 1218 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeHour; }
-#line 5075 "bison_parser.cpp" /* yacc.c:1646  */
+  case 267: /* datetime_field_plural: HOURS  */
+#line 1221 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeHour; }
+#line 5238 "bison_parser.cpp"
     break;
 
-  case 268:
-#line 1219 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeDay; }
-#line 5081 "bison_parser.cpp" /* yacc.c:1646  */
+  case 268: /* datetime_field_plural: DAYS  */
+#line 1222 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeDay; }
+#line 5244 "bison_parser.cpp"
     break;
 
-  case 269:
-#line 1220 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5087 "bison_parser.cpp" /* yacc.c:1646  */
+  case 269: /* datetime_field_plural: MONTHS  */
+#line 1223 "bison_parser.y"
+         { (yyval.datetime_field) = kDatetimeMonth; }
+#line 5250 "bison_parser.cpp"
     break;
 
-  case 270:
-#line 1221 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeYear; }
-#line 5093 "bison_parser.cpp" /* yacc.c:1646  */
+  case 270: /* datetime_field_plural: YEARS  */
+#line 1224 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeYear; }
+#line 5256 "bison_parser.cpp"
     break;
 
-  case 273:
-#line 1225 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5099 "bison_parser.cpp" /* yacc.c:1646  */
+  case 273: /* array_expr: ARRAY '[' expr_list ']'  */
+#line 1228 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
+#line 5262 "bison_parser.cpp"
     break;
 
-  case 274:
-#line 1227 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
-#line 5105 "bison_parser.cpp" /* yacc.c:1646  */
+  case 274: /* array_index: operand '[' int_literal ']'  */
+#line 1230 "bison_parser.y"
+                                          { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
+#line 5268 "bison_parser.cpp"
     break;
 
-  case 275:
-#line 1229 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5111 "bison_parser.cpp" /* yacc.c:1646  */
+  case 275: /* between_expr: operand BETWEEN operand AND operand  */
+#line 1232 "bison_parser.y"
+                                                   { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
+#line 5274 "bison_parser.cpp"
     break;
 
-  case 276:
-#line 1231 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5117 "bison_parser.cpp" /* yacc.c:1646  */
+  case 276: /* column_name: IDENTIFIER  */
+#line 1234 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
+#line 5280 "bison_parser.cpp"
     break;
 
-  case 277:
-#line 1232 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5123 "bison_parser.cpp" /* yacc.c:1646  */
+  case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1235 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
+#line 5286 "bison_parser.cpp"
     break;
 
-  case 278:
-#line 1233 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeStar(); }
-#line 5129 "bison_parser.cpp" /* yacc.c:1646  */
+  case 278: /* column_name: '*'  */
+#line 1236 "bison_parser.y"
+      { (yyval.expr) = Expr::makeStar(); }
+#line 5292 "bison_parser.cpp"
     break;
 
-  case 279:
-#line 1234 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5135 "bison_parser.cpp" /* yacc.c:1646  */
+  case 279: /* column_name: IDENTIFIER '.' '*'  */
+#line 1237 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
+#line 5298 "bison_parser.cpp"
     break;
 
-  case 287:
-#line 1238 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5141 "bison_parser.cpp" /* yacc.c:1646  */
+  case 287: /* string_literal: STRING  */
+#line 1241 "bison_parser.y"
+                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
+#line 5304 "bison_parser.cpp"
     break;
 
-  case 288:
-#line 1240 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5147 "bison_parser.cpp" /* yacc.c:1646  */
+  case 288: /* bool_literal: TRUE  */
+#line 1243 "bison_parser.y"
+                    { (yyval.expr) = Expr::makeLiteral(true); }
+#line 5310 "bison_parser.cpp"
     break;
 
-  case 289:
-#line 1241 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5153 "bison_parser.cpp" /* yacc.c:1646  */
+  case 289: /* bool_literal: FALSE  */
+#line 1244 "bison_parser.y"
+        { (yyval.expr) = Expr::makeLiteral(false); }
+#line 5316 "bison_parser.cpp"
     break;
 
-  case 290:
-#line 1243 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5159 "bison_parser.cpp" /* yacc.c:1646  */
+  case 290: /* num_literal: FLOATVAL  */
+#line 1246 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
+#line 5322 "bison_parser.cpp"
     break;
 
-  case 292:
-#line 1246 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5165 "bison_parser.cpp" /* yacc.c:1646  */
+  case 292: /* int_literal: INTVAL  */
+#line 1249 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
+#line 5328 "bison_parser.cpp"
     break;
 
-  case 293:
-#line 1248 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5171 "bison_parser.cpp" /* yacc.c:1646  */
+  case 293: /* null_literal: NULL  */
+#line 1251 "bison_parser.y"
+                    { (yyval.expr) = Expr::makeNullLiteral(); }
+#line 5334 "bison_parser.cpp"
     break;
 
-  case 294:
-#line 1250 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 294: /* date_literal: DATE STRING  */
+#line 1253 "bison_parser.y"
+                           {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
   if (sscanf((yyvsp[0].sval), "%4d-%2d-%2d%n", &day, &month, &year, &chars_parsed) != 3 || (yyvsp[0].sval)[chars_parsed] != 0) {
@@ -5182,18 +5345,18 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5186 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5349 "bison_parser.cpp"
     break;
 
-  case 295:
-#line 1261 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5192 "bison_parser.cpp" /* yacc.c:1646  */
+  case 295: /* interval_literal: INTVAL duration_field  */
+#line 1264 "bison_parser.y"
+                                         { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
+#line 5355 "bison_parser.cpp"
     break;
 
-  case 296:
-#line 1262 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 296: /* interval_literal: INTERVAL STRING datetime_field  */
+#line 1265 "bison_parser.y"
+                                 {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
   if (sscanf((yyvsp[-1].sval), "%d%n", &duration, &chars_parsed) != 1 || (yyvsp[-1].sval)[chars_parsed] != 0) {
@@ -5204,12 +5367,12 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5208 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5371 "bison_parser.cpp"
     break;
 
-  case 297:
-#line 1273 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 297: /* interval_literal: INTERVAL STRING  */
+#line 1276 "bison_parser.y"
+                  {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
   char unit_string[8];
@@ -5240,290 +5403,290 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5244 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5407 "bison_parser.cpp"
     break;
 
-  case 298:
-#line 1305 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 298: /* param_expr: '?'  */
+#line 1308 "bison_parser.y"
+                 {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5254 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5417 "bison_parser.cpp"
     break;
 
-  case 300:
-#line 1314 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
+#line 1317 "bison_parser.y"
+                                                                        {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5265 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5428 "bison_parser.cpp"
     break;
 
-  case 304:
-#line 1323 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
+#line 1326 "bison_parser.y"
+                                                                                     {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5276 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5439 "bison_parser.cpp"
     break;
 
-  case 305:
-#line 1330 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 305: /* table_ref_commalist: table_ref_atomic  */
+#line 1333 "bison_parser.y"
+                                       {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5285 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5448 "bison_parser.cpp"
     break;
 
-  case 306:
-#line 1334 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
+#line 1337 "bison_parser.y"
+                                           {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5294 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5457 "bison_parser.cpp"
     break;
 
-  case 307:
-#line 1339 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 307: /* table_ref_name: table_name opt_table_alias  */
+#line 1342 "bison_parser.y"
+                                            {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
   tbl->name = (yyvsp[-1].table_name).name;
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5306 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5469 "bison_parser.cpp"
     break;
 
-  case 308:
-#line 1347 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 308: /* table_ref_name_no_alias: table_name  */
+#line 1350 "bison_parser.y"
+                                     {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5316 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5479 "bison_parser.cpp"
     break;
 
-  case 309:
-#line 1353 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 309: /* table_name: IDENTIFIER  */
+#line 1356 "bison_parser.y"
+                        {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5325 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5488 "bison_parser.cpp"
     break;
 
-  case 310:
-#line 1357 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1360 "bison_parser.y"
+                            {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5334 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5497 "bison_parser.cpp"
     break;
 
-  case 311:
-#line 1362 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = (yyvsp[0].sval); }
-#line 5340 "bison_parser.cpp" /* yacc.c:1646  */
+  case 311: /* opt_index_name: IDENTIFIER  */
+#line 1365 "bison_parser.y"
+                            { (yyval.sval) = (yyvsp[0].sval); }
+#line 5503 "bison_parser.cpp"
     break;
 
-  case 312:
-#line 1363 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = nullptr; }
-#line 5346 "bison_parser.cpp" /* yacc.c:1646  */
+  case 312: /* opt_index_name: %empty  */
+#line 1366 "bison_parser.y"
+              { (yyval.sval) = nullptr; }
+#line 5509 "bison_parser.cpp"
     break;
 
-  case 314:
-#line 1365 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5352 "bison_parser.cpp" /* yacc.c:1646  */
+  case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
+#line 1368 "bison_parser.y"
+                                                            { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
+#line 5515 "bison_parser.cpp"
     break;
 
-  case 316:
-#line 1367 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = nullptr; }
-#line 5358 "bison_parser.cpp" /* yacc.c:1646  */
+  case 316: /* opt_table_alias: %empty  */
+#line 1370 "bison_parser.y"
+                                            { (yyval.alias_t) = nullptr; }
+#line 5521 "bison_parser.cpp"
     break;
 
-  case 317:
-#line 1369 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5364 "bison_parser.cpp" /* yacc.c:1646  */
+  case 317: /* alias: AS IDENTIFIER  */
+#line 1372 "bison_parser.y"
+                      { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
+#line 5527 "bison_parser.cpp"
     break;
 
-  case 318:
-#line 1370 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5370 "bison_parser.cpp" /* yacc.c:1646  */
+  case 318: /* alias: IDENTIFIER  */
+#line 1373 "bison_parser.y"
+             { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
+#line 5533 "bison_parser.cpp"
     break;
 
-  case 320:
-#line 1372 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = nullptr; }
-#line 5376 "bison_parser.cpp" /* yacc.c:1646  */
+  case 320: /* opt_alias: %empty  */
+#line 1375 "bison_parser.y"
+                                { (yyval.alias_t) = nullptr; }
+#line 5539 "bison_parser.cpp"
     break;
 
-  case 321:
-#line 1378 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5382 "bison_parser.cpp" /* yacc.c:1646  */
+  case 321: /* opt_locking_clause: opt_locking_clause_list  */
+#line 1381 "bison_parser.y"
+                                             { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
+#line 5545 "bison_parser.cpp"
     break;
 
-  case 322:
-#line 1379 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.locking_clause_vec) = nullptr; }
-#line 5388 "bison_parser.cpp" /* yacc.c:1646  */
+  case 322: /* opt_locking_clause: %empty  */
+#line 1382 "bison_parser.y"
+              { (yyval.locking_clause_vec) = nullptr; }
+#line 5551 "bison_parser.cpp"
     break;
 
-  case 323:
-#line 1381 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 323: /* opt_locking_clause_list: locking_clause  */
+#line 1384 "bison_parser.y"
+                                         {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5397 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5560 "bison_parser.cpp"
     break;
 
-  case 324:
-#line 1385 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
+#line 1388 "bison_parser.y"
+                                         {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5406 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5569 "bison_parser.cpp"
     break;
 
-  case 325:
-#line 1390 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
+#line 1393 "bison_parser.y"
+                                                       {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5417 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5580 "bison_parser.cpp"
     break;
 
-  case 326:
-#line 1396 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
+#line 1399 "bison_parser.y"
+                                                           {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5428 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5591 "bison_parser.cpp"
     break;
 
-  case 327:
-#line 1403 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5434 "bison_parser.cpp" /* yacc.c:1646  */
+  case 327: /* row_lock_mode: UPDATE  */
+#line 1406 "bison_parser.y"
+                       { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
+#line 5597 "bison_parser.cpp"
     break;
 
-  case 328:
-#line 1404 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5440 "bison_parser.cpp" /* yacc.c:1646  */
+  case 328: /* row_lock_mode: NO KEY UPDATE  */
+#line 1407 "bison_parser.y"
+                { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
+#line 5603 "bison_parser.cpp"
     break;
 
-  case 329:
-#line 1405 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5446 "bison_parser.cpp" /* yacc.c:1646  */
+  case 329: /* row_lock_mode: SHARE  */
+#line 1408 "bison_parser.y"
+        { (yyval.lock_mode_t) = RowLockMode::ForShare; }
+#line 5609 "bison_parser.cpp"
     break;
 
-  case 330:
-#line 1406 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5452 "bison_parser.cpp" /* yacc.c:1646  */
+  case 330: /* row_lock_mode: KEY SHARE  */
+#line 1409 "bison_parser.y"
+            { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
+#line 5615 "bison_parser.cpp"
     break;
 
-  case 331:
-#line 1408 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5458 "bison_parser.cpp" /* yacc.c:1646  */
+  case 331: /* opt_row_lock_policy: SKIP LOCKED  */
+#line 1411 "bison_parser.y"
+                                  { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
+#line 5621 "bison_parser.cpp"
     break;
 
-  case 332:
-#line 1409 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5464 "bison_parser.cpp" /* yacc.c:1646  */
+  case 332: /* opt_row_lock_policy: NOWAIT  */
+#line 1412 "bison_parser.y"
+         { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
+#line 5627 "bison_parser.cpp"
     break;
 
-  case 333:
-#line 1410 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5470 "bison_parser.cpp" /* yacc.c:1646  */
+  case 333: /* opt_row_lock_policy: %empty  */
+#line 1413 "bison_parser.y"
+              { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
+#line 5633 "bison_parser.cpp"
     break;
 
-  case 335:
-#line 1416 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.with_description_vec) = nullptr; }
-#line 5476 "bison_parser.cpp" /* yacc.c:1646  */
+  case 335: /* opt_with_clause: %empty  */
+#line 1419 "bison_parser.y"
+                                            { (yyval.with_description_vec) = nullptr; }
+#line 5639 "bison_parser.cpp"
     break;
 
-  case 336:
-#line 1418 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5482 "bison_parser.cpp" /* yacc.c:1646  */
+  case 336: /* with_clause: WITH with_description_list  */
+#line 1421 "bison_parser.y"
+                                         { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
+#line 5645 "bison_parser.cpp"
     break;
 
-  case 337:
-#line 1420 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 337: /* with_description_list: with_description  */
+#line 1423 "bison_parser.y"
+                                         {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5491 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5654 "bison_parser.cpp"
     break;
 
-  case 338:
-#line 1424 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 338: /* with_description_list: with_description_list ',' with_description  */
+#line 1427 "bison_parser.y"
+                                             {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5500 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5663 "bison_parser.cpp"
     break;
 
-  case 339:
-#line 1429 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 339: /* with_description: IDENTIFIER AS select_with_paren  */
+#line 1432 "bison_parser.y"
+                                                   {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5510 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5673 "bison_parser.cpp"
     break;
 
-  case 340:
-#line 1439 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
+#line 1442 "bison_parser.y"
+                                                                     {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = kJoinNatural;
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5522 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5685 "bison_parser.cpp"
     break;
 
-  case 341:
-#line 1446 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
+#line 1449 "bison_parser.y"
+                                                                         {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = (JoinType)(yyvsp[-4].join_type);
@@ -5531,12 +5694,12 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5535 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5698 "bison_parser.cpp"
     break;
 
-  case 342:
-#line 1454 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
+#line 1457 "bison_parser.y"
+                                                                                     {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = (yyvsp[-6].join_type);
@@ -5544,89 +5707,90 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5548 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5711 "bison_parser.cpp"
     break;
 
-  case 343:
-#line 1463 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinInner; }
-#line 5554 "bison_parser.cpp" /* yacc.c:1646  */
+  case 343: /* opt_join_type: INNER  */
+#line 1466 "bison_parser.y"
+                      { (yyval.join_type) = kJoinInner; }
+#line 5717 "bison_parser.cpp"
     break;
 
-  case 344:
-#line 1464 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinLeft; }
-#line 5560 "bison_parser.cpp" /* yacc.c:1646  */
+  case 344: /* opt_join_type: LEFT OUTER  */
+#line 1467 "bison_parser.y"
+             { (yyval.join_type) = kJoinLeft; }
+#line 5723 "bison_parser.cpp"
     break;
 
-  case 345:
-#line 1465 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinLeft; }
-#line 5566 "bison_parser.cpp" /* yacc.c:1646  */
+  case 345: /* opt_join_type: LEFT  */
+#line 1468 "bison_parser.y"
+       { (yyval.join_type) = kJoinLeft; }
+#line 5729 "bison_parser.cpp"
     break;
 
-  case 346:
-#line 1466 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinRight; }
-#line 5572 "bison_parser.cpp" /* yacc.c:1646  */
+  case 346: /* opt_join_type: RIGHT OUTER  */
+#line 1469 "bison_parser.y"
+              { (yyval.join_type) = kJoinRight; }
+#line 5735 "bison_parser.cpp"
     break;
 
-  case 347:
-#line 1467 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinRight; }
-#line 5578 "bison_parser.cpp" /* yacc.c:1646  */
+  case 347: /* opt_join_type: RIGHT  */
+#line 1470 "bison_parser.y"
+        { (yyval.join_type) = kJoinRight; }
+#line 5741 "bison_parser.cpp"
     break;
 
-  case 348:
-#line 1468 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5584 "bison_parser.cpp" /* yacc.c:1646  */
+  case 348: /* opt_join_type: FULL OUTER  */
+#line 1471 "bison_parser.y"
+             { (yyval.join_type) = kJoinFull; }
+#line 5747 "bison_parser.cpp"
     break;
 
-  case 349:
-#line 1469 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5590 "bison_parser.cpp" /* yacc.c:1646  */
+  case 349: /* opt_join_type: OUTER  */
+#line 1472 "bison_parser.y"
+        { (yyval.join_type) = kJoinFull; }
+#line 5753 "bison_parser.cpp"
     break;
 
-  case 350:
-#line 1470 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5596 "bison_parser.cpp" /* yacc.c:1646  */
+  case 350: /* opt_join_type: FULL  */
+#line 1473 "bison_parser.y"
+       { (yyval.join_type) = kJoinFull; }
+#line 5759 "bison_parser.cpp"
     break;
 
-  case 351:
-#line 1471 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinCross; }
-#line 5602 "bison_parser.cpp" /* yacc.c:1646  */
+  case 351: /* opt_join_type: CROSS  */
+#line 1474 "bison_parser.y"
+        { (yyval.join_type) = kJoinCross; }
+#line 5765 "bison_parser.cpp"
     break;
 
-  case 352:
-#line 1472 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinInner; }
-#line 5608 "bison_parser.cpp" /* yacc.c:1646  */
+  case 352: /* opt_join_type: %empty  */
+#line 1475 "bison_parser.y"
+                       { (yyval.join_type) = kJoinInner; }
+#line 5771 "bison_parser.cpp"
     break;
 
-  case 356:
-#line 1483 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 356: /* ident_commalist: IDENTIFIER  */
+#line 1486 "bison_parser.y"
+                             {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5617 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5780 "bison_parser.cpp"
     break;
 
-  case 357:
-#line 1487 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
+#line 1490 "bison_parser.y"
+                                 {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5626 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5789 "bison_parser.cpp"
     break;
 
 
-#line 5630 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5793 "bison_parser.cpp"
+
       default: break;
     }
   /* User semantic actions sometimes alter yychar, and that requires
@@ -5640,11 +5804,10 @@ yyreduce:
      case of YYERROR or YYBACKUP, subsequent parser actions might lead
      to an incorrect destructor call or verbose syntax error message
      before the lookahead is translated.  */
-  YY_SYMBOL_PRINT ("-> $$ =", yyr1[yyn], &yyval, &yyloc);
+  YY_SYMBOL_PRINT ("-> $$ =", YY_CAST (yysymbol_kind_t, yyr1[yyn]), &yyval, &yyloc);
 
   YYPOPSTACK (yylen);
   yylen = 0;
-  YY_STACK_PRINT (yyss, yyssp);
 
   *++yyvsp = yyval;
   *++yylsp = yyloc;
@@ -5652,14 +5815,13 @@ yyreduce:
   /* Now 'shift' the result of the reduction.  Determine what state
      that goes to, based on the state we popped back to and the rule
      number reduced by.  */
-
-  yyn = yyr1[yyn];
-
-  yystate = yypgoto[yyn - YYNTOKENS] + *yyssp;
-  if (0 <= yystate && yystate <= YYLAST && yycheck[yystate] == *yyssp)
-    yystate = yytable[yystate];
-  else
-    yystate = yydefgoto[yyn - YYNTOKENS];
+  {
+    const int yylhs = yyr1[yyn] - YYNTOKENS;
+    const int yyi = yypgoto[yylhs] + *yyssp;
+    yystate = (0 <= yyi && yyi <= YYLAST && yycheck[yyi] == *yyssp
+               ? yytable[yyi]
+               : yydefgoto[yylhs]);
+  }
 
   goto yynewstate;
 
@@ -5670,66 +5832,61 @@ yyreduce:
 yyerrlab:
   /* Make sure we have latest lookahead translation.  See comments at
      user semantic actions for why this is necessary.  */
-  yytoken = yychar == YYEMPTY ? YYEMPTY : YYTRANSLATE (yychar);
-
+  yytoken = yychar == SQL_HSQL_EMPTY ? YYSYMBOL_YYEMPTY : YYTRANSLATE (yychar);
   /* If not already recovering from an error, report this error.  */
   if (!yyerrstatus)
     {
       ++yynerrs;
-#if ! YYERROR_VERBOSE
-      yyerror (&yylloc, result, scanner, YY_("syntax error"));
-#else
-# define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
-                                        yyssp, yytoken)
       {
+        yypcontext_t yyctx
+          = {yyssp, yytoken, &yylloc};
         char const *yymsgp = YY_("syntax error");
         int yysyntax_error_status;
-        yysyntax_error_status = YYSYNTAX_ERROR;
+        yysyntax_error_status = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
         if (yysyntax_error_status == 0)
           yymsgp = yymsg;
-        else if (yysyntax_error_status == 1)
+        else if (yysyntax_error_status == -1)
           {
             if (yymsg != yymsgbuf)
               YYSTACK_FREE (yymsg);
-            yymsg = (char *) YYSTACK_ALLOC (yymsg_alloc);
-            if (!yymsg)
+            yymsg = YY_CAST (char *,
+                             YYSTACK_ALLOC (YY_CAST (YYSIZE_T, yymsg_alloc)));
+            if (yymsg)
               {
-                yymsg = yymsgbuf;
-                yymsg_alloc = sizeof yymsgbuf;
-                yysyntax_error_status = 2;
+                yysyntax_error_status
+                  = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
+                yymsgp = yymsg;
               }
             else
               {
-                yysyntax_error_status = YYSYNTAX_ERROR;
-                yymsgp = yymsg;
+                yymsg = yymsgbuf;
+                yymsg_alloc = sizeof yymsgbuf;
+                yysyntax_error_status = YYENOMEM;
               }
           }
         yyerror (&yylloc, result, scanner, yymsgp);
-        if (yysyntax_error_status == 2)
-          goto yyexhaustedlab;
+        if (yysyntax_error_status == YYENOMEM)
+          YYNOMEM;
       }
-# undef YYSYNTAX_ERROR
-#endif
     }
 
   yyerror_range[1] = yylloc;
-
   if (yyerrstatus == 3)
     {
       /* If just tried and failed to reuse lookahead token after an
          error, discard it.  */
 
-      if (yychar <= YYEOF)
+      if (yychar <= SQL_YYEOF)
         {
           /* Return failure if at end of input.  */
-          if (yychar == YYEOF)
+          if (yychar == SQL_YYEOF)
             YYABORT;
         }
       else
         {
           yydestruct ("Error: discarding",
                       yytoken, &yylval, &yylloc, result, scanner);
-          yychar = YYEMPTY;
+          yychar = SQL_HSQL_EMPTY;
         }
     }
 
@@ -5742,14 +5899,12 @@ yyerrlab:
 | yyerrorlab -- error raised explicitly by YYERROR.  |
 `---------------------------------------------------*/
 yyerrorlab:
+  /* Pacify compilers when the user code never invokes YYERROR and the
+     label yyerrorlab therefore never appears in user code.  */
+  if (0)
+    YYERROR;
+  ++yynerrs;
 
-  /* Pacify compilers like GCC when the user code never invokes
-     YYERROR and the label yyerrorlab therefore never appears in user
-     code.  */
-  if (/*CONSTCOND*/ 0)
-     goto yyerrorlab;
-
-  yyerror_range[1] = yylsp[1-yylen];
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYERROR.  */
   YYPOPSTACK (yylen);
@@ -5765,13 +5920,14 @@ yyerrorlab:
 yyerrlab1:
   yyerrstatus = 3;      /* Each real token shifted decrements this.  */
 
+  /* Pop stack until we find a state that shifts the error token.  */
   for (;;)
     {
       yyn = yypact[yystate];
       if (!yypact_value_is_default (yyn))
         {
-          yyn += YYTERROR;
-          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYTERROR)
+          yyn += YYSYMBOL_YYerror;
+          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYSYMBOL_YYerror)
             {
               yyn = yytable[yyn];
               if (0 < yyn)
@@ -5785,7 +5941,7 @@ yyerrlab1:
 
       yyerror_range[1] = *yylsp;
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, yylsp, result, scanner);
+                  YY_ACCESSING_SYMBOL (yystate), yyvsp, yylsp, result, scanner);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -5796,13 +5952,11 @@ yyerrlab1:
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 
   yyerror_range[2] = yylloc;
-  /* Using YYLLOC is tempting, but would change the location of
-     the lookahead.  YYLOC is available though.  */
-  YYLLOC_DEFAULT (yyloc, yyerror_range, 2);
-  *++yylsp = yyloc;
+  ++yylsp;
+  YYLLOC_DEFAULT (*yylsp, yyerror_range, 2);
 
   /* Shift the error token.  */
-  YY_SYMBOL_PRINT ("Shifting", yystos[yyn], yyvsp, yylsp);
+  YY_SYMBOL_PRINT ("Shifting", YY_ACCESSING_SYMBOL (yyn), yyvsp, yylsp);
 
   yystate = yyn;
   goto yynewstate;
@@ -5813,27 +5967,31 @@ yyerrlab1:
 `-------------------------------------*/
 yyacceptlab:
   yyresult = 0;
-  goto yyreturn;
+  goto yyreturnlab;
+
 
 /*-----------------------------------.
 | yyabortlab -- YYABORT comes here.  |
 `-----------------------------------*/
 yyabortlab:
   yyresult = 1;
-  goto yyreturn;
+  goto yyreturnlab;
+
 
-#if !defined yyoverflow || YYERROR_VERBOSE
-/*-------------------------------------------------.
-| yyexhaustedlab -- memory exhaustion comes here.  |
-`-------------------------------------------------*/
+/*-----------------------------------------------------------.
+| yyexhaustedlab -- YYNOMEM (memory exhaustion) comes here.  |
+`-----------------------------------------------------------*/
 yyexhaustedlab:
   yyerror (&yylloc, result, scanner, YY_("memory exhausted"));
   yyresult = 2;
-  /* Fall through.  */
-#endif
+  goto yyreturnlab;
+
 
-yyreturn:
-  if (yychar != YYEMPTY)
+/*----------------------------------------------------------.
+| yyreturnlab -- parsing is finished, clean up and return.  |
+`----------------------------------------------------------*/
+yyreturnlab:
+  if (yychar != SQL_HSQL_EMPTY)
     {
       /* Make sure we have latest lookahead translation.  See comments at
          user semantic actions for why this is necessary.  */
@@ -5848,20 +6006,19 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[*yyssp], yyvsp, yylsp, result, scanner);
+                  YY_ACCESSING_SYMBOL (+*yyssp), yyvsp, yylsp, result, scanner);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
   if (yyss != yyssa)
     YYSTACK_FREE (yyss);
 #endif
-#if YYERROR_VERBOSE
   if (yymsg != yymsgbuf)
     YYSTACK_FREE (yymsg);
-#endif
   return yyresult;
 }
-#line 1493 "bison_parser.y" /* yacc.c:1906  */
+
+#line 1496 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index b0a2e97..74b6fd4 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -1,8 +1,9 @@
-/* A Bison parser, made by GNU Bison 3.0.4.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison interface for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015 Free Software Foundation, Inc.
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
+   Inc.
 
    This program is free software: you can redistribute it and/or modify
    it under the terms of the GNU General Public License as published by
@@ -15,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -30,6 +31,10 @@
    This special exception was added by the Free Software Foundation in
    version 2.2 of Bison.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 #ifndef YY_HSQL_BISON_PARSER_H_INCLUDED
 # define YY_HSQL_BISON_PARSER_H_INCLUDED
 /* Debug traces.  */
@@ -48,7 +53,7 @@
 extern int hsql_debug;
 #endif
 /* "%code requires" blocks.  */
-#line 39 "bison_parser.y" /* yacc.c:1909  */
+#line 39 "bison_parser.y"
 
 // %code requires block
 
@@ -71,201 +76,206 @@ extern int hsql_debug;
     }                                         \
   }
 
-#line 75 "bison_parser.h" /* yacc.c:1909  */
+#line 80 "bison_parser.h"
 
-/* Token type.  */
+/* Token kinds.  */
 #ifndef HSQL_TOKENTYPE
 # define HSQL_TOKENTYPE
   enum hsql_tokentype
   {
-    SQL_IDENTIFIER = 258,
-    SQL_STRING = 259,
-    SQL_FLOATVAL = 260,
-    SQL_INTVAL = 261,
-    SQL_DEALLOCATE = 262,
-    SQL_PARAMETERS = 263,
-    SQL_INTERSECT = 264,
-    SQL_TEMPORARY = 265,
-    SQL_TIMESTAMP = 266,
-    SQL_DISTINCT = 267,
-    SQL_NVARCHAR = 268,
-    SQL_RESTRICT = 269,
-    SQL_TRUNCATE = 270,
-    SQL_ANALYZE = 271,
-    SQL_BETWEEN = 272,
-    SQL_CASCADE = 273,
-    SQL_COLUMNS = 274,
-    SQL_CONTROL = 275,
-    SQL_DEFAULT = 276,
-    SQL_EXECUTE = 277,
-    SQL_EXPLAIN = 278,
-    SQL_ENCODING = 279,
-    SQL_INTEGER = 280,
-    SQL_NATURAL = 281,
-    SQL_PREPARE = 282,
-    SQL_SCHEMAS = 283,
-    SQL_CHARACTER_VARYING = 284,
-    SQL_REAL = 285,
-    SQL_DECIMAL = 286,
-    SQL_SMALLINT = 287,
-    SQL_BIGINT = 288,
-    SQL_SPATIAL = 289,
-    SQL_VARCHAR = 290,
-    SQL_VIRTUAL = 291,
-    SQL_DESCRIBE = 292,
-    SQL_BEFORE = 293,
-    SQL_COLUMN = 294,
-    SQL_CREATE = 295,
-    SQL_DELETE = 296,
-    SQL_DIRECT = 297,
-    SQL_DOUBLE = 298,
-    SQL_ESCAPE = 299,
-    SQL_EXCEPT = 300,
-    SQL_EXISTS = 301,
-    SQL_EXTRACT = 302,
-    SQL_CAST = 303,
-    SQL_FORMAT = 304,
-    SQL_GLOBAL = 305,
-    SQL_HAVING = 306,
-    SQL_IMPORT = 307,
-    SQL_INSERT = 308,
-    SQL_ISNULL = 309,
-    SQL_OFFSET = 310,
-    SQL_RENAME = 311,
-    SQL_SCHEMA = 312,
-    SQL_SELECT = 313,
-    SQL_SORTED = 314,
-    SQL_TABLES = 315,
-    SQL_UNLOAD = 316,
-    SQL_UPDATE = 317,
-    SQL_VALUES = 318,
-    SQL_AFTER = 319,
-    SQL_ALTER = 320,
-    SQL_CROSS = 321,
-    SQL_DELTA = 322,
-    SQL_FLOAT = 323,
-    SQL_GROUP = 324,
-    SQL_INDEX = 325,
-    SQL_INNER = 326,
-    SQL_LIMIT = 327,
-    SQL_LOCAL = 328,
-    SQL_MERGE = 329,
-    SQL_MINUS = 330,
-    SQL_ORDER = 331,
-    SQL_OVER = 332,
-    SQL_OUTER = 333,
-    SQL_RIGHT = 334,
-    SQL_TABLE = 335,
-    SQL_UNION = 336,
-    SQL_USING = 337,
-    SQL_WHERE = 338,
-    SQL_CALL = 339,
-    SQL_CASE = 340,
-    SQL_CHAR = 341,
-    SQL_COPY = 342,
-    SQL_DATE = 343,
-    SQL_DATETIME = 344,
-    SQL_DESC = 345,
-    SQL_DROP = 346,
-    SQL_ELSE = 347,
-    SQL_FILE = 348,
-    SQL_FROM = 349,
-    SQL_FULL = 350,
-    SQL_HASH = 351,
-    SQL_HINT = 352,
-    SQL_INTO = 353,
-    SQL_JOIN = 354,
-    SQL_LEFT = 355,
-    SQL_LIKE = 356,
-    SQL_LOAD = 357,
-    SQL_LONG = 358,
-    SQL_NULL = 359,
-    SQL_PARTITION = 360,
-    SQL_PLAN = 361,
-    SQL_SHOW = 362,
-    SQL_TEXT = 363,
-    SQL_THEN = 364,
-    SQL_TIME = 365,
-    SQL_VIEW = 366,
-    SQL_WHEN = 367,
-    SQL_WITH = 368,
-    SQL_ADD = 369,
-    SQL_ALL = 370,
-    SQL_AND = 371,
-    SQL_ASC = 372,
-    SQL_END = 373,
-    SQL_FOR = 374,
-    SQL_INT = 375,
-    SQL_NOT = 376,
-    SQL_OFF = 377,
-    SQL_SET = 378,
-    SQL_TOP = 379,
-    SQL_AS = 380,
-    SQL_BY = 381,
-    SQL_IF = 382,
-    SQL_IN = 383,
-    SQL_IS = 384,
-    SQL_OF = 385,
-    SQL_ON = 386,
-    SQL_OR = 387,
-    SQL_TO = 388,
-    SQL_NO = 389,
-    SQL_ARRAY = 390,
-    SQL_CONCAT = 391,
-    SQL_ILIKE = 392,
-    SQL_SECOND = 393,
-    SQL_MINUTE = 394,
-    SQL_HOUR = 395,
-    SQL_DAY = 396,
-    SQL_MONTH = 397,
-    SQL_YEAR = 398,
-    SQL_SECONDS = 399,
-    SQL_MINUTES = 400,
-    SQL_HOURS = 401,
-    SQL_DAYS = 402,
-    SQL_MONTHS = 403,
-    SQL_YEARS = 404,
-    SQL_INTERVAL = 405,
-    SQL_TRUE = 406,
-    SQL_FALSE = 407,
-    SQL_BOOLEAN = 408,
-    SQL_TRANSACTION = 409,
-    SQL_BEGIN = 410,
-    SQL_COMMIT = 411,
-    SQL_ROLLBACK = 412,
-    SQL_NOWAIT = 413,
-    SQL_SKIP = 414,
-    SQL_LOCKED = 415,
-    SQL_SHARE = 416,
-    SQL_RANGE = 417,
-    SQL_ROWS = 418,
-    SQL_GROUPS = 419,
-    SQL_UNBOUNDED = 420,
-    SQL_FOLLOWING = 421,
-    SQL_PRECEDING = 422,
-    SQL_CURRENT_ROW = 423,
-    SQL_UNIQUE = 424,
-    SQL_PRIMARY = 425,
-    SQL_FOREIGN = 426,
-    SQL_KEY = 427,
-    SQL_REFERENCES = 428,
-    SQL_EQUALS = 429,
-    SQL_NOTEQUALS = 430,
-    SQL_LESS = 431,
-    SQL_GREATER = 432,
-    SQL_LESSEQ = 433,
-    SQL_GREATEREQ = 434,
-    SQL_NOTNULL = 435,
-    SQL_UMINUS = 436
+    SQL_HSQL_EMPTY = -2,
+    SQL_YYEOF = 0,                 /* "end of file"  */
+    SQL_HSQL_error = 256,          /* error  */
+    SQL_HSQL_UNDEF = 257,          /* "invalid token"  */
+    SQL_IDENTIFIER = 258,          /* IDENTIFIER  */
+    SQL_STRING = 259,              /* STRING  */
+    SQL_FLOATVAL = 260,            /* FLOATVAL  */
+    SQL_INTVAL = 261,              /* INTVAL  */
+    SQL_DEALLOCATE = 262,          /* DEALLOCATE  */
+    SQL_PARAMETERS = 263,          /* PARAMETERS  */
+    SQL_INTERSECT = 264,           /* INTERSECT  */
+    SQL_TEMPORARY = 265,           /* TEMPORARY  */
+    SQL_TIMESTAMP = 266,           /* TIMESTAMP  */
+    SQL_DISTINCT = 267,            /* DISTINCT  */
+    SQL_NVARCHAR = 268,            /* NVARCHAR  */
+    SQL_RESTRICT = 269,            /* RESTRICT  */
+    SQL_TRUNCATE = 270,            /* TRUNCATE  */
+    SQL_ANALYZE = 271,             /* ANALYZE  */
+    SQL_BETWEEN = 272,             /* BETWEEN  */
+    SQL_CASCADE = 273,             /* CASCADE  */
+    SQL_COLUMNS = 274,             /* COLUMNS  */
+    SQL_CONTROL = 275,             /* CONTROL  */
+    SQL_DEFAULT = 276,             /* DEFAULT  */
+    SQL_EXECUTE = 277,             /* EXECUTE  */
+    SQL_EXPLAIN = 278,             /* EXPLAIN  */
+    SQL_ENCODING = 279,            /* ENCODING  */
+    SQL_INTEGER = 280,             /* INTEGER  */
+    SQL_NATURAL = 281,             /* NATURAL  */
+    SQL_PREPARE = 282,             /* PREPARE  */
+    SQL_SCHEMAS = 283,             /* SCHEMAS  */
+    SQL_CHARACTER_VARYING = 284,   /* CHARACTER_VARYING  */
+    SQL_REAL = 285,                /* REAL  */
+    SQL_DECIMAL = 286,             /* DECIMAL  */
+    SQL_SMALLINT = 287,            /* SMALLINT  */
+    SQL_BIGINT = 288,              /* BIGINT  */
+    SQL_SPATIAL = 289,             /* SPATIAL  */
+    SQL_VARCHAR = 290,             /* VARCHAR  */
+    SQL_VIRTUAL = 291,             /* VIRTUAL  */
+    SQL_DESCRIBE = 292,            /* DESCRIBE  */
+    SQL_BEFORE = 293,              /* BEFORE  */
+    SQL_COLUMN = 294,              /* COLUMN  */
+    SQL_CREATE = 295,              /* CREATE  */
+    SQL_DELETE = 296,              /* DELETE  */
+    SQL_DIRECT = 297,              /* DIRECT  */
+    SQL_DOUBLE = 298,              /* DOUBLE  */
+    SQL_ESCAPE = 299,              /* ESCAPE  */
+    SQL_EXCEPT = 300,              /* EXCEPT  */
+    SQL_EXISTS = 301,              /* EXISTS  */
+    SQL_EXTRACT = 302,             /* EXTRACT  */
+    SQL_CAST = 303,                /* CAST  */
+    SQL_FORMAT = 304,              /* FORMAT  */
+    SQL_GLOBAL = 305,              /* GLOBAL  */
+    SQL_HAVING = 306,              /* HAVING  */
+    SQL_IMPORT = 307,              /* IMPORT  */
+    SQL_INSERT = 308,              /* INSERT  */
+    SQL_ISNULL = 309,              /* ISNULL  */
+    SQL_OFFSET = 310,              /* OFFSET  */
+    SQL_RENAME = 311,              /* RENAME  */
+    SQL_SCHEMA = 312,              /* SCHEMA  */
+    SQL_SELECT = 313,              /* SELECT  */
+    SQL_SORTED = 314,              /* SORTED  */
+    SQL_TABLES = 315,              /* TABLES  */
+    SQL_UNLOAD = 316,              /* UNLOAD  */
+    SQL_UPDATE = 317,              /* UPDATE  */
+    SQL_VALUES = 318,              /* VALUES  */
+    SQL_AFTER = 319,               /* AFTER  */
+    SQL_ALTER = 320,               /* ALTER  */
+    SQL_CROSS = 321,               /* CROSS  */
+    SQL_DELTA = 322,               /* DELTA  */
+    SQL_FLOAT = 323,               /* FLOAT  */
+    SQL_GROUP = 324,               /* GROUP  */
+    SQL_INDEX = 325,               /* INDEX  */
+    SQL_INNER = 326,               /* INNER  */
+    SQL_LIMIT = 327,               /* LIMIT  */
+    SQL_LOCAL = 328,               /* LOCAL  */
+    SQL_MERGE = 329,               /* MERGE  */
+    SQL_MINUS = 330,               /* MINUS  */
+    SQL_ORDER = 331,               /* ORDER  */
+    SQL_OVER = 332,                /* OVER  */
+    SQL_OUTER = 333,               /* OUTER  */
+    SQL_RIGHT = 334,               /* RIGHT  */
+    SQL_TABLE = 335,               /* TABLE  */
+    SQL_UNION = 336,               /* UNION  */
+    SQL_USING = 337,               /* USING  */
+    SQL_WHERE = 338,               /* WHERE  */
+    SQL_CALL = 339,                /* CALL  */
+    SQL_CASE = 340,                /* CASE  */
+    SQL_CHAR = 341,                /* CHAR  */
+    SQL_COPY = 342,                /* COPY  */
+    SQL_DATE = 343,                /* DATE  */
+    SQL_DATETIME = 344,            /* DATETIME  */
+    SQL_DESC = 345,                /* DESC  */
+    SQL_DROP = 346,                /* DROP  */
+    SQL_ELSE = 347,                /* ELSE  */
+    SQL_FILE = 348,                /* FILE  */
+    SQL_FROM = 349,                /* FROM  */
+    SQL_FULL = 350,                /* FULL  */
+    SQL_HASH = 351,                /* HASH  */
+    SQL_HINT = 352,                /* HINT  */
+    SQL_INTO = 353,                /* INTO  */
+    SQL_JOIN = 354,                /* JOIN  */
+    SQL_LEFT = 355,                /* LEFT  */
+    SQL_LIKE = 356,                /* LIKE  */
+    SQL_LOAD = 357,                /* LOAD  */
+    SQL_LONG = 358,                /* LONG  */
+    SQL_NULL = 359,                /* NULL  */
+    SQL_PARTITION = 360,           /* PARTITION  */
+    SQL_PLAN = 361,                /* PLAN  */
+    SQL_SHOW = 362,                /* SHOW  */
+    SQL_TEXT = 363,                /* TEXT  */
+    SQL_THEN = 364,                /* THEN  */
+    SQL_TIME = 365,                /* TIME  */
+    SQL_VIEW = 366,                /* VIEW  */
+    SQL_WHEN = 367,                /* WHEN  */
+    SQL_WITH = 368,                /* WITH  */
+    SQL_ADD = 369,                 /* ADD  */
+    SQL_ALL = 370,                 /* ALL  */
+    SQL_AND = 371,                 /* AND  */
+    SQL_ASC = 372,                 /* ASC  */
+    SQL_END = 373,                 /* END  */
+    SQL_FOR = 374,                 /* FOR  */
+    SQL_INT = 375,                 /* INT  */
+    SQL_NOT = 376,                 /* NOT  */
+    SQL_OFF = 377,                 /* OFF  */
+    SQL_SET = 378,                 /* SET  */
+    SQL_TOP = 379,                 /* TOP  */
+    SQL_AS = 380,                  /* AS  */
+    SQL_BY = 381,                  /* BY  */
+    SQL_IF = 382,                  /* IF  */
+    SQL_IN = 383,                  /* IN  */
+    SQL_IS = 384,                  /* IS  */
+    SQL_OF = 385,                  /* OF  */
+    SQL_ON = 386,                  /* ON  */
+    SQL_OR = 387,                  /* OR  */
+    SQL_TO = 388,                  /* TO  */
+    SQL_NO = 389,                  /* NO  */
+    SQL_ARRAY = 390,               /* ARRAY  */
+    SQL_CONCAT = 391,              /* CONCAT  */
+    SQL_ILIKE = 392,               /* ILIKE  */
+    SQL_SECOND = 393,              /* SECOND  */
+    SQL_MINUTE = 394,              /* MINUTE  */
+    SQL_HOUR = 395,                /* HOUR  */
+    SQL_DAY = 396,                 /* DAY  */
+    SQL_MONTH = 397,               /* MONTH  */
+    SQL_YEAR = 398,                /* YEAR  */
+    SQL_SECONDS = 399,             /* SECONDS  */
+    SQL_MINUTES = 400,             /* MINUTES  */
+    SQL_HOURS = 401,               /* HOURS  */
+    SQL_DAYS = 402,                /* DAYS  */
+    SQL_MONTHS = 403,              /* MONTHS  */
+    SQL_YEARS = 404,               /* YEARS  */
+    SQL_INTERVAL = 405,            /* INTERVAL  */
+    SQL_TRUE = 406,                /* TRUE  */
+    SQL_FALSE = 407,               /* FALSE  */
+    SQL_BOOLEAN = 408,             /* BOOLEAN  */
+    SQL_TRANSACTION = 409,         /* TRANSACTION  */
+    SQL_BEGIN = 410,               /* BEGIN  */
+    SQL_COMMIT = 411,              /* COMMIT  */
+    SQL_ROLLBACK = 412,            /* ROLLBACK  */
+    SQL_NOWAIT = 413,              /* NOWAIT  */
+    SQL_SKIP = 414,                /* SKIP  */
+    SQL_LOCKED = 415,              /* LOCKED  */
+    SQL_SHARE = 416,               /* SHARE  */
+    SQL_RANGE = 417,               /* RANGE  */
+    SQL_ROWS = 418,                /* ROWS  */
+    SQL_GROUPS = 419,              /* GROUPS  */
+    SQL_UNBOUNDED = 420,           /* UNBOUNDED  */
+    SQL_FOLLOWING = 421,           /* FOLLOWING  */
+    SQL_PRECEDING = 422,           /* PRECEDING  */
+    SQL_CURRENT_ROW = 423,         /* CURRENT_ROW  */
+    SQL_UNIQUE = 424,              /* UNIQUE  */
+    SQL_PRIMARY = 425,             /* PRIMARY  */
+    SQL_FOREIGN = 426,             /* FOREIGN  */
+    SQL_KEY = 427,                 /* KEY  */
+    SQL_REFERENCES = 428,          /* REFERENCES  */
+    SQL_INVALID = 429,             /* INVALID  */
+    SQL_EQUALS = 430,              /* EQUALS  */
+    SQL_NOTEQUALS = 431,           /* NOTEQUALS  */
+    SQL_LESS = 432,                /* LESS  */
+    SQL_GREATER = 433,             /* GREATER  */
+    SQL_LESSEQ = 434,              /* LESSEQ  */
+    SQL_GREATEREQ = 435,           /* GREATEREQ  */
+    SQL_NOTNULL = 436,             /* NOTNULL  */
+    SQL_UMINUS = 437               /* UMINUS  */
   };
+  typedef enum hsql_tokentype hsql_token_kind_t;
 #endif
 
 /* Value type.  */
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
-
 union HSQL_STYPE
 {
-#line 102 "bison_parser.y" /* yacc.c:1909  */
+#line 102 "bison_parser.y"
 
   // clang-format on
   bool bval;
@@ -340,9 +350,9 @@ union HSQL_STYPE
 
   // clang-format off
 
-#line 344 "bison_parser.h" /* yacc.c:1909  */
-};
+#line 354 "bison_parser.h"
 
+};
 typedef union HSQL_STYPE HSQL_STYPE;
 # define HSQL_STYPE_IS_TRIVIAL 1
 # define HSQL_STYPE_IS_DECLARED 1
@@ -364,6 +374,8 @@ struct HSQL_LTYPE
 
 
 
+
 int hsql_parse (hsql::SQLParserResult* result, yyscan_t scanner);
 
+
 #endif /* !YY_HSQL_BISON_PARSER_H_INCLUDED  */
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 053b78a..5eca6a6 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -237,6 +237,9 @@
 %token RANGE ROWS GROUPS UNBOUNDED FOLLOWING PRECEDING CURRENT_ROW
 %token UNIQUE PRIMARY FOREIGN KEY REFERENCES
 
+/* Input that is no token, e.g., an unterminated string. No grammar rule accepts it, so the query is rejected. */
+%token INVALID
+
 /*********************************
  ** Non-Terminal types (http://www.gnu.org/software/bison/manual/html_node/Type-Decl.html)
  *********************************/
diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 5be72ee..1fd366b 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -9,11 +9,245 @@
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
 #define YY_FLEX_MINOR_VERSION 6
-#define YY_FLEX_SUBMINOR_VERSION 1
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
 
+#ifdef yy_create_buffer
+#define hsql__create_buffer_ALREADY_DEFINED
+#else
+#define yy_create_buffer hsql__create_buffer
+#endif
+
+#ifdef yy_delete_buffer
+#define hsql__delete_buffer_ALREADY_DEFINED
+#else
+#define yy_delete_buffer hsql__delete_buffer
+#endif
+
+#ifdef yy_scan_buffer
+#define hsql__scan_buffer_ALREADY_DEFINED
+#else
+#define yy_scan_buffer hsql__scan_buffer
+#endif
+
+#ifdef yy_scan_string
+#define hsql__scan_string_ALREADY_DEFINED
+#else
+#define yy_scan_string hsql__scan_string
+#endif
+
+#ifdef yy_scan_bytes
+#define hsql__scan_bytes_ALREADY_DEFINED
+#else
+#define yy_scan_bytes hsql__scan_bytes
+#endif
+
+#ifdef yy_init_buffer
+#define hsql__init_buffer_ALREADY_DEFINED
+#else
+#define yy_init_buffer hsql__init_buffer
+#endif
+
+#ifdef yy_flush_buffer
+#define hsql__flush_buffer_ALREADY_DEFINED
+#else
+#define yy_flush_buffer hsql__flush_buffer
+#endif
+
+#ifdef yy_load_buffer_state
+#define hsql__load_buffer_state_ALREADY_DEFINED
+#else
+#define yy_load_buffer_state hsql__load_buffer_state
+#endif
+
+#ifdef yy_switch_to_buffer
+#define hsql__switch_to_buffer_ALREADY_DEFINED
+#else
+#define yy_switch_to_buffer hsql__switch_to_buffer
+#endif
+
+#ifdef yypush_buffer_state
+#define hsql_push_buffer_state_ALREADY_DEFINED
+#else
+#define yypush_buffer_state hsql_push_buffer_state
+#endif
+
+#ifdef yypop_buffer_state
+#define hsql_pop_buffer_state_ALREADY_DEFINED
+#else
+#define yypop_buffer_state hsql_pop_buffer_state
+#endif
+
+#ifdef yyensure_buffer_stack
+#define hsql_ensure_buffer_stack_ALREADY_DEFINED
+#else
+#define yyensure_buffer_stack hsql_ensure_buffer_stack
+#endif
+
+#ifdef yylex
+#define hsql_lex_ALREADY_DEFINED
+#else
+#define yylex hsql_lex
+#endif
+
+#ifdef yyrestart
+#define hsql_restart_ALREADY_DEFINED
+#else
+#define yyrestart hsql_restart
+#endif
+
+#ifdef yylex_init
+#define hsql_lex_init_ALREADY_DEFINED
+#else
+#define yylex_init hsql_lex_init
+#endif
+
+#ifdef yylex_init_extra
+#define hsql_lex_init_extra_ALREADY_DEFINED
+#else
+#define yylex_init_extra hsql_lex_init_extra
+#endif
+
+#ifdef yylex_destroy
+#define hsql_lex_destroy_ALREADY_DEFINED
+#else
+#define yylex_destroy hsql_lex_destroy
+#endif
+
+#ifdef yyget_debug
+#define hsql_get_debug_ALREADY_DEFINED
+#else
+#define yyget_debug hsql_get_debug
+#endif
+
+#ifdef yyset_debug
+#define hsql_set_debug_ALREADY_DEFINED
+#else
+#define yyset_debug hsql_set_debug
+#endif
+
+#ifdef yyget_extra
+#define hsql_get_extra_ALREADY_DEFINED
+#else
+#define yyget_extra hsql_get_extra
+#endif
+
+#ifdef yyset_extra
+#define hsql_set_extra_ALREADY_DEFINED
+#else
+#define yyset_extra hsql_set_extra
+#endif
+
+#ifdef yyget_in
+#define hsql_get_in_ALREADY_DEFINED
+#else
+#define yyget_in hsql_get_in
+#endif
+
+#ifdef yyset_in
+#define hsql_set_in_ALREADY_DEFINED
+#else
+#define yyset_in hsql_set_in
+#endif
+
+#ifdef yyget_out
+#define hsql_get_out_ALREADY_DEFINED
+#else
+#define yyget_out hsql_get_out
+#endif
+
+#ifdef yyset_out
+#define hsql_set_out_ALREADY_DEFINED
+#else
+#define yyset_out hsql_set_out
+#endif
+
+#ifdef yyget_leng
+#define hsql_get_leng_ALREADY_DEFINED
+#else
+#define yyget_leng hsql_get_leng
+#endif
+
+#ifdef yyget_text
+#define hsql_get_text_ALREADY_DEFINED
+#else
+#define yyget_text hsql_get_text
+#endif
+
+#ifdef yyget_lineno
+#define hsql_get_lineno_ALREADY_DEFINED
+#else
+#define yyget_lineno hsql_get_lineno
+#endif
+
+#ifdef yyset_lineno
+#define hsql_set_lineno_ALREADY_DEFINED
+#else
+#define yyset_lineno hsql_set_lineno
+#endif
+
+#ifdef yyget_column
+#define hsql_get_column_ALREADY_DEFINED
+#else
+#define yyget_column hsql_get_column
+#endif
+
+#ifdef yyset_column
+#define hsql_set_column_ALREADY_DEFINED
+#else
+#define yyset_column hsql_set_column
+#endif
+
+#ifdef yywrap
+#define hsql_wrap_ALREADY_DEFINED
+#else
+#define yywrap hsql_wrap
+#endif
+
+#ifdef yyget_lval
+#define hsql_get_lval_ALREADY_DEFINED
+#else
+#define yyget_lval hsql_get_lval
+#endif
+
+#ifdef yyset_lval
+#define hsql_set_lval_ALREADY_DEFINED
+#else
+#define yyset_lval hsql_set_lval
+#endif
+
+#ifdef yyget_lloc
+#define hsql_get_lloc_ALREADY_DEFINED
+#else
+#define yyget_lloc hsql_get_lloc
+#endif
+
+#ifdef yyset_lloc
+#define hsql_set_lloc_ALREADY_DEFINED
+#else
+#define yyset_lloc hsql_set_lloc
+#endif
+
+#ifdef yyalloc
+#define hsql_alloc_ALREADY_DEFINED
+#else
+#define yyalloc hsql_alloc
+#endif
+
+#ifdef yyrealloc
+#define hsql_realloc_ALREADY_DEFINED
+#else
+#define yyrealloc hsql_realloc
+#endif
+
+#ifdef yyfree
+#define hsql_free_ALREADY_DEFINED
+#else
+#define yyfree hsql_free
+#endif
+
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
@@ -84,10 +318,16 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
+/* begin standard C++ headers. */
+
 /* TODO: this is always defined, so inline it */
 #define yyconst const
 
@@ -100,12 +340,10 @@ typedef unsigned int flex_uint32_t;
 /* Returned upon end-of-file. */
 #define YY_NULL 0
 
-/* Promotes a possibly negative, possibly signed char to an unsigned
- * integer for use as an array index.  If the signed char is negative,
- * we want to instead treat it as an 8-bit unsigned char, hence the
- * double cast.
+/* Promotes a possibly negative, possibly signed char to an
+ *   integer in range [0..255] for use as an array index.
  */
-#define YY_SC_TO_UI(c) ((unsigned int) (unsigned char) c)
+#define YY_SC_TO_UI(c) ((YY_CHAR) (c))
 
 /* An opaque pointer. */
 #ifndef YY_TYPEDEF_YY_SCANNER_T
@@ -129,20 +367,16 @@ typedef void* yyscan_t;
  * definition of BEGIN.
  */
 #define BEGIN yyg->yy_start = 1 + 2 *
-
 /* Translate the current start state into a value that can be later handed
  * to BEGIN to return to the state.  The YYSTATE alias is for lex
  * compatibility.
  */
 #define YY_START ((yyg->yy_start - 1) / 2)
 #define YYSTATE YY_START
-
 /* Action number for EOF rule of a given start state. */
 #define YY_STATE_EOF(state) (YY_END_OF_BUFFER + state + 1)
-
 /* Special action meaning "start processing a new file". */
-#define YY_NEW_FILE hsql_restart(yyin ,yyscanner )
-
+#define YY_NEW_FILE yyrestart( yyin , yyscanner )
 #define YY_END_OF_BUFFER_CHAR 0
 
 /* Size of default input buffer. */
@@ -175,7 +409,7 @@ typedef size_t yy_size_t;
 #define EOB_ACT_CONTINUE_SCAN 0
 #define EOB_ACT_END_OF_FILE 1
 #define EOB_ACT_LAST_MATCH 2
-
+    
     #define YY_LESS_LINENO(n)
     #define YY_LINENO_REWIND_TO(ptr)
     
@@ -184,7 +418,7 @@ typedef size_t yy_size_t;
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		*yy_cp = yyg->yy_hold_char; \
 		YY_RESTORE_YY_MORE_OFFSET \
@@ -192,7 +426,6 @@ typedef size_t yy_size_t;
 		YY_DO_BEFORE_ACTION; /* set up yytext again */ \
 		} \
 	while ( 0 )
-
 #define unput(c) yyunput( c, yyg->yytext_ptr , yyscanner )
 
 #ifndef YY_STRUCT_YY_BUFFER_STATE
@@ -235,7 +468,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -252,7 +485,7 @@ struct yy_buffer_state
 	 * possible backing-up.
 	 *
 	 * When we actually see the EOF, we change the status to "new"
-	 * (via hsql_restart()), so that the user can continue scanning by
+	 * (via yyrestart()), so that the user can continue scanning by
 	 * just pointing yyin at a new input file.
 	 */
 #define YY_BUFFER_EOF_PENDING 2
@@ -269,73 +502,67 @@ struct yy_buffer_state
 #define YY_CURRENT_BUFFER ( yyg->yy_buffer_stack \
                           ? yyg->yy_buffer_stack[yyg->yy_buffer_stack_top] \
                           : NULL)
-
 /* Same as previous macro, but useful when we know that the buffer stack is not
  * NULL or when we need an lvalue. For internal use only.
  */
 #define YY_CURRENT_BUFFER_LVALUE yyg->yy_buffer_stack[yyg->yy_buffer_stack_top]
 
-void hsql_restart (FILE *input_file ,yyscan_t yyscanner );
-void hsql__switch_to_buffer (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__create_buffer (FILE *file,int size ,yyscan_t yyscanner );
-void hsql__delete_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql__flush_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-void hsql_pop_buffer_state (yyscan_t yyscanner );
-
-static void hsql_ensure_buffer_stack (yyscan_t yyscanner );
-static void hsql__load_buffer_state (yyscan_t yyscanner );
-static void hsql__init_buffer (YY_BUFFER_STATE b,FILE *file ,yyscan_t yyscanner );
-
-#define YY_FLUSH_BUFFER hsql__flush_buffer(YY_CURRENT_BUFFER ,yyscanner)
+void yyrestart ( FILE *input_file , yyscan_t yyscanner );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size , yyscan_t yyscanner );
+void yy_delete_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yy_flush_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+void yypop_buffer_state ( yyscan_t yyscanner );
 
-YY_BUFFER_STATE hsql__scan_buffer (char *base,yy_size_t size ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_string (yyconst char *yy_str ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_bytes (yyconst char *bytes,int len ,yyscan_t yyscanner );
+static void yyensure_buffer_stack ( yyscan_t yyscanner );
+static void yy_load_buffer_state ( yyscan_t yyscanner );
+static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file , yyscan_t yyscanner );
+#define YY_FLUSH_BUFFER yy_flush_buffer( YY_CURRENT_BUFFER , yyscanner)
 
-void *hsql_alloc (yy_size_t ,yyscan_t yyscanner );
-void *hsql_realloc (void *,yy_size_t ,yyscan_t yyscanner );
-void hsql_free (void * ,yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
-#define yy_new_buffer hsql__create_buffer
+void *yyalloc ( yy_size_t , yyscan_t yyscanner );
+void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
+void yyfree ( void * , yyscan_t yyscanner );
 
+#define yy_new_buffer yy_create_buffer
 #define yy_set_interactive(is_interactive) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){ \
-        hsql_ensure_buffer_stack (yyscanner); \
+        yyensure_buffer_stack (yyscanner); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner); \
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_is_interactive = is_interactive; \
 	}
-
 #define yy_set_bol(at_bol) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){\
-        hsql_ensure_buffer_stack (yyscanner); \
+        yyensure_buffer_stack (yyscanner); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner); \
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_at_bol = at_bol; \
 	}
-
 #define YY_AT_BOL() (YY_CURRENT_BUFFER_LVALUE->yy_at_bol)
 
 /* Begin user sect3 */
 
 #define hsql_wrap(yyscanner) (/*CONSTCOND*/1)
 #define YY_SKIP_YYWRAP
-
-typedef unsigned char YY_CHAR;
+typedef flex_uint8_t YY_CHAR;
 
 typedef int yy_state_type;
 
 #define yytext_ptr yytext_r
 
-static yy_state_type yy_get_previous_state (yyscan_t yyscanner );
-static yy_state_type yy_try_NUL_trans (yy_state_type current_state  ,yyscan_t yyscanner);
-static int yy_get_next_buffer (yyscan_t yyscanner );
-static void yynoreturn yy_fatal_error (yyconst char* msg ,yyscan_t yyscanner );
+static yy_state_type yy_get_previous_state ( yyscan_t yyscanner );
+static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  , yyscan_t yyscanner);
+static int yy_get_next_buffer ( yyscan_t yyscanner );
+static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 
 /* Done after the current pattern has been matched and before the
  * corresponding action - sets up yytext.
@@ -346,7 +573,6 @@ static void yynoreturn yy_fatal_error (yyconst char* msg ,yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-
 #define YY_NUM_RULES 189
 #define YY_END_OF_BUFFER 190
 /* This struct is not used in this scanner,
@@ -356,7 +582,7 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static yyconst flex_int16_t yy_accept[1368] =
+static const flex_int16_t yy_accept[1368] =
     {   0,
         0,    0,  186,  186,    2,    2,  190,  188,    4,    4,
       188,  188,  177,  184,  177,  177,  181,  177,  177,  177,
@@ -510,7 +736,7 @@ static yyconst flex_int16_t yy_accept[1368] =
         0,    2,    0,    2,  180,    2,    0
     } ;
 
-static yyconst YY_CHAR yy_ec[256] =
+static const YY_CHAR yy_ec[256] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -542,7 +768,7 @@ static yyconst YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static yyconst YY_CHAR yy_meta[77] =
+static const YY_CHAR yy_meta[77] =
     {   0,
         1,    1,    2,    1,    3,    1,    4,    1,    1,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    1,
@@ -554,7 +780,7 @@ static yyconst YY_CHAR yy_meta[77] =
         5,    5,    5,    5,    5,    1
     } ;
 
-static yyconst flex_uint16_t yy_base[1375] =
+static const flex_int16_t yy_base[1375] =
     {   0,
         0,    0,  852,  842,   76,    0,  842, 8955,  151,  153,
       786,    0, 8955, 8955,  149,  148,  160,  159,  778,  775,
@@ -709,7 +935,7 @@ static yyconst flex_uint16_t yy_base[1375] =
      8934, 8939, 8944, 8949
     } ;
 
-static yyconst flex_int16_t yy_def[1375] =
+static const flex_int16_t yy_def[1375] =
     {   0,
      1367,    1, 1368, 1368, 1367,    5, 1367, 1367, 1367, 1367,
      1367, 1369, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
@@ -864,7 +1090,7 @@ static yyconst flex_int16_t yy_def[1375] =
      1367, 1367, 1367, 1367
     } ;
 
-static yyconst flex_uint16_t yy_nxt[9032] =
+static const flex_int16_t yy_nxt[9032] =
     {   0,
         8,    9,   10,   11,   12,   13,   14,   15,   16,   17,
        17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
@@ -1862,7 +2088,7 @@ static yyconst flex_uint16_t yy_nxt[9032] =
      1367
     } ;
 
-static yyconst flex_int16_t yy_chk[9032] =
+static const flex_int16_t yy_chk[9032] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -2888,6 +3114,7 @@ static yyconst flex_int16_t yy_chk[9032] =
 
 static thread_local std::stringstream strbuf;
 
+#line 3118 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -2901,7 +3128,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 2905 "flex_lexer.cpp"
+#line 3132 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -2957,7 +3184,7 @@ struct yyguts_t
 
     }; /* end struct yyguts_t */
 
-static int yy_init_globals (yyscan_t yyscanner );
+static int yy_init_globals ( yyscan_t yyscanner );
 
     /* This must go here because YYSTYPE and YYLTYPE are included
      * from bison output in section 1.*/
@@ -2965,50 +3192,50 @@ static int yy_init_globals (yyscan_t yyscanner );
     
     #    define yylloc yyg->yylloc_r
     
-int hsql_lex_init (yyscan_t* scanner);
+int yylex_init (yyscan_t* scanner);
 
-int hsql_lex_init_extra (YY_EXTRA_TYPE user_defined,yyscan_t* scanner);
+int yylex_init_extra ( YY_EXTRA_TYPE user_defined, yyscan_t* scanner);
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int hsql_lex_destroy (yyscan_t yyscanner );
+int yylex_destroy ( yyscan_t yyscanner );
 
-int hsql_get_debug (yyscan_t yyscanner );
+int yyget_debug ( yyscan_t yyscanner );
 
-void hsql_set_debug (int debug_flag ,yyscan_t yyscanner );
+void yyset_debug ( int debug_flag , yyscan_t yyscanner );
 
-YY_EXTRA_TYPE hsql_get_extra (yyscan_t yyscanner );
+YY_EXTRA_TYPE yyget_extra ( yyscan_t yyscanner );
 
-void hsql_set_extra (YY_EXTRA_TYPE user_defined ,yyscan_t yyscanner );
+void yyset_extra ( YY_EXTRA_TYPE user_defined , yyscan_t yyscanner );
 
-FILE *hsql_get_in (yyscan_t yyscanner );
+FILE *yyget_in ( yyscan_t yyscanner );
 
-void hsql_set_in  (FILE * _in_str ,yyscan_t yyscanner );
+void yyset_in  ( FILE * _in_str , yyscan_t yyscanner );
 
-FILE *hsql_get_out (yyscan_t yyscanner );
+FILE *yyget_out ( yyscan_t yyscanner );
 
-void hsql_set_out  (FILE * _out_str ,yyscan_t yyscanner );
+void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			int hsql_get_leng (yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
-char *hsql_get_text (yyscan_t yyscanner );
+char *yyget_text ( yyscan_t yyscanner );
 
-int hsql_get_lineno (yyscan_t yyscanner );
+int yyget_lineno ( yyscan_t yyscanner );
 
-void hsql_set_lineno (int _line_number ,yyscan_t yyscanner );
+void yyset_lineno ( int _line_number , yyscan_t yyscanner );
 
-int hsql_get_column  (yyscan_t yyscanner );
+int yyget_column  ( yyscan_t yyscanner );
 
-void hsql_set_column (int _column_no ,yyscan_t yyscanner );
+void yyset_column ( int _column_no , yyscan_t yyscanner );
 
-YYSTYPE * hsql_get_lval (yyscan_t yyscanner );
+YYSTYPE * yyget_lval ( yyscan_t yyscanner );
 
-void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
+void yyset_lval ( YYSTYPE * yylval_param , yyscan_t yyscanner );
 
-       YYLTYPE *hsql_get_lloc (yyscan_t yyscanner );
+       YYLTYPE *yyget_lloc ( yyscan_t yyscanner );
     
-        void hsql_set_lloc (YYLTYPE * yylloc_param ,yyscan_t yyscanner );
+        void yyset_lloc ( YYLTYPE * yylloc_param , yyscan_t yyscanner );
     
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -3016,9 +3243,9 @@ void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int hsql_wrap (yyscan_t yyscanner );
+extern "C" int yywrap ( yyscan_t yyscanner );
 #else
-extern int hsql_wrap (yyscan_t yyscanner );
+extern int yywrap ( yyscan_t yyscanner );
 #endif
 #endif
 
@@ -3027,19 +3254,18 @@ extern int hsql_wrap (yyscan_t yyscanner );
 #endif
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int ,yyscan_t yyscanner);
+static void yy_flex_strncpy ( char *, const char *, int , yyscan_t yyscanner);
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
+static int yy_flex_strlen ( const char * , yyscan_t yyscanner);
 #endif
 
 #ifndef YY_NO_INPUT
-
 #ifdef __cplusplus
-static int yyinput (yyscan_t yyscanner );
+static int yyinput ( yyscan_t yyscanner );
 #else
-static int input (yyscan_t yyscanner );
+static int input ( yyscan_t yyscanner );
 #endif
 
 #endif
@@ -3124,10 +3350,10 @@ static int input (yyscan_t yyscanner );
 #ifndef YY_DECL
 #define YY_DECL_IS_OURS 1
 
-extern int hsql_lex \
-               (YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yyscanner);
+extern int yylex \
+               (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner);
 
-#define YY_DECL int hsql_lex \
+#define YY_DECL int yylex \
                (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner)
 #endif /* !YY_DECL */
 
@@ -3177,19 +3403,19 @@ YY_DECL
 			yyout = stdout;
 
 		if ( ! YY_CURRENT_BUFFER ) {
-			hsql_ensure_buffer_stack (yyscanner);
+			yyensure_buffer_stack (yyscanner);
 			YY_CURRENT_BUFFER_LVALUE =
-				hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner);
+				yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner);
 		}
 
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 		}
 
 	{
 #line 57 "flex_lexer.l"
 
 
-#line 3193 "flex_lexer.cpp"
+#line 3419 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -3217,9 +3443,9 @@ yy_match:
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
 				if ( yy_current_state >= 1368 )
-					yy_c = yy_meta[(unsigned int) yy_c];
+					yy_c = yy_meta[yy_c];
 				}
-			yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
 		while ( yy_current_state != 1367 );
@@ -4162,8 +4388,8 @@ YY_RULE_SETUP
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
   if (errno) {
-    return fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
-    return 0;
+    fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
+    return SQL_INVALID;
   }
   return SQL_INTVAL;
 }
@@ -4208,19 +4434,19 @@ YY_RULE_SETUP
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
 #line 284 "flex_lexer.l"
-{ fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return 0; }
+{ BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 	YY_BREAK
 case 188:
 YY_RULE_SETUP
 #line 286 "flex_lexer.l"
-{ fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return 0; }
+{ fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 	YY_BREAK
 case 189:
 YY_RULE_SETUP
 #line 288 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 4224 "flex_lexer.cpp"
+#line 4450 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(COMMENT):
 	yyterminate();
@@ -4239,7 +4465,7 @@ case YY_STATE_EOF(COMMENT):
 			/* We're scanning a new file or input source.  It's
 			 * possible that this happened because the user
 			 * just pointed yyin at a new source and called
-			 * hsql_lex().  If so, then we have to assure
+			 * yylex().  If so, then we have to assure
 			 * consistency between YY_CURRENT_BUFFER and our
 			 * globals.  Here is the right place to do so, because
 			 * this is the first action (other than possibly a
@@ -4300,7 +4526,7 @@ case YY_STATE_EOF(COMMENT):
 				{
 				yyg->yy_did_buffer_switch_on_eof = 0;
 
-				if ( hsql_wrap(yyscanner ) )
+				if ( yywrap( yyscanner ) )
 					{
 					/* Note: because we've taken care in
 					 * yy_get_next_buffer() to have set up
@@ -4354,7 +4580,7 @@ case YY_STATE_EOF(COMMENT):
 	} /* end of action switch */
 		} /* end of scanning one token */
 	} /* end of user's declarations */
-} /* end of hsql_lex */
+} /* end of yylex */
 
 /* yy_get_next_buffer - try to read in a new buffer
  *
@@ -4368,7 +4594,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	char *dest = YY_CURRENT_BUFFER_LVALUE->yy_ch_buf;
 	char *source = yyg->yytext_ptr;
-	yy_size_t number_to_move, i;
+	int number_to_move, i;
 	int ret_val;
 
 	if ( yyg->yy_c_buf_p > &YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[yyg->yy_n_chars + 1] )
@@ -4397,7 +4623,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	/* Try to read more data. */
 
 	/* First move last chars to start of buffer. */
-	number_to_move = (yy_size_t) (yyg->yy_c_buf_p - yyg->yytext_ptr) - 1;
+	number_to_move = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr - 1);
 
 	for ( i = 0; i < number_to_move; ++i )
 		*(dest++) = *(source++);
@@ -4433,7 +4659,8 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 				b->yy_ch_buf = (char *)
 					/* Include room in for 2 EOB chars. */
-					hsql_realloc((void *) b->yy_ch_buf,(yy_size_t) (b->yy_buf_size + 2) ,yyscanner );
+					yyrealloc( (void *) b->yy_ch_buf,
+							 (yy_size_t) (b->yy_buf_size + 2) , yyscanner );
 				}
 			else
 				/* Can't grow it, we don't own it. */
@@ -4465,7 +4692,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		if ( number_to_move == YY_MORE_ADJ )
 			{
 			ret_val = EOB_ACT_END_OF_FILE;
-			hsql_restart(yyin  ,yyscanner);
+			yyrestart( yyin  , yyscanner);
 			}
 
 		else
@@ -4479,12 +4706,15 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	else
 		ret_val = EOB_ACT_CONTINUE_SCAN;
 
-	if ((int) (yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
+	if ((yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
 		int new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
-		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) hsql_realloc((void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf,(yy_size_t) new_size ,yyscanner );
+		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
+			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size , yyscanner );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
 			YY_FATAL_ERROR( "out of dynamic memory in yy_get_next_buffer()" );
+		/* "- 2" to take care of EOB's */
+		YY_CURRENT_BUFFER_LVALUE->yy_buf_size = (int) (new_size - 2);
 	}
 
 	yyg->yy_n_chars += number_to_move;
@@ -4518,9 +4748,9 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
 			if ( yy_current_state >= 1368 )
-				yy_c = yy_meta[(unsigned int) yy_c];
+				yy_c = yy_meta[yy_c];
 			}
-		yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 		}
 
 	return yy_current_state;
@@ -4547,9 +4777,9 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
 		if ( yy_current_state >= 1368 )
-			yy_c = yy_meta[(unsigned int) yy_c];
+			yy_c = yy_meta[yy_c];
 		}
-	yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 	yy_is_jam = (yy_current_state == 1367);
 
 	(void)yyg;
@@ -4585,7 +4815,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 		else
 			{ /* need more input */
-			int offset = yyg->yy_c_buf_p - yyg->yytext_ptr;
+			int offset = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr);
 			++yyg->yy_c_buf_p;
 
 			switch ( yy_get_next_buffer( yyscanner ) )
@@ -4602,13 +4832,13 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 					 */
 
 					/* Reset buffer status. */
-					hsql_restart(yyin ,yyscanner);
+					yyrestart( yyin , yyscanner);
 
 					/*FALLTHROUGH*/
 
 				case EOB_ACT_END_OF_FILE:
 					{
-					if ( hsql_wrap(yyscanner ) )
+					if ( yywrap( yyscanner ) )
 						return 0;
 
 					if ( ! yyg->yy_did_buffer_switch_on_eof )
@@ -4640,34 +4870,34 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @note This function does not reset the start condition to @c INITIAL .
  */
-    void hsql_restart  (FILE * input_file , yyscan_t yyscanner)
+    void yyrestart  (FILE * input_file , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	if ( ! YY_CURRENT_BUFFER ){
-        hsql_ensure_buffer_stack (yyscanner);
+        yyensure_buffer_stack (yyscanner);
 		YY_CURRENT_BUFFER_LVALUE =
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner);
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner);
 	}
 
-	hsql__init_buffer(YY_CURRENT_BUFFER,input_file ,yyscanner);
-	hsql__load_buffer_state(yyscanner );
+	yy_init_buffer( YY_CURRENT_BUFFER, input_file , yyscanner);
+	yy_load_buffer_state( yyscanner );
 }
 
 /** Switch to a different input buffer.
  * @param new_buffer The new input buffer.
  * @param yyscanner The scanner object.
  */
-    void hsql__switch_to_buffer  (YY_BUFFER_STATE  new_buffer , yyscan_t yyscanner)
+    void yy_switch_to_buffer  (YY_BUFFER_STATE  new_buffer , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	/* TODO. We should be able to replace this entire function body
 	 * with
-	 *		hsql_pop_buffer_state();
-	 *		hsql_push_buffer_state(new_buffer);
+	 *		yypop_buffer_state();
+	 *		yypush_buffer_state(new_buffer);
      */
-	hsql_ensure_buffer_stack (yyscanner);
+	yyensure_buffer_stack (yyscanner);
 	if ( YY_CURRENT_BUFFER == new_buffer )
 		return;
 
@@ -4680,17 +4910,17 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		}
 
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
-	hsql__load_buffer_state(yyscanner );
+	yy_load_buffer_state( yyscanner );
 
 	/* We don't actually know whether we did this switch during
-	 * EOF (hsql_wrap()) processing, but the only time this flag
-	 * is looked at is after hsql_wrap() is called, so it's safe
+	 * EOF (yywrap()) processing, but the only time this flag
+	 * is looked at is after yywrap() is called, so it's safe
 	 * to go ahead and always set it.
 	 */
 	yyg->yy_did_buffer_switch_on_eof = 1;
 }
 
-static void hsql__load_buffer_state  (yyscan_t yyscanner)
+static void yy_load_buffer_state  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	yyg->yy_n_chars = YY_CURRENT_BUFFER_LVALUE->yy_n_chars;
@@ -4705,35 +4935,35 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @return the allocated buffer state.
  */
-    YY_BUFFER_STATE hsql__create_buffer  (FILE * file, int  size , yyscan_t yyscanner)
+    YY_BUFFER_STATE yy_create_buffer  (FILE * file, int  size , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
     
-	b = (YY_BUFFER_STATE) hsql_alloc(sizeof( struct yy_buffer_state ) ,yyscanner );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state ) , yyscanner );
 	if ( ! b )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__create_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_buf_size = size;
 
 	/* yy_ch_buf has to be 2 characters longer than the size given because
 	 * we need to put in 2 end-of-buffer characters.
 	 */
-	b->yy_ch_buf = (char *) hsql_alloc((yy_size_t) (b->yy_buf_size + 2) ,yyscanner );
+	b->yy_ch_buf = (char *) yyalloc( (yy_size_t) (b->yy_buf_size + 2) , yyscanner );
 	if ( ! b->yy_ch_buf )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__create_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_is_our_buffer = 1;
 
-	hsql__init_buffer(b,file ,yyscanner);
+	yy_init_buffer( b, file , yyscanner);
 
 	return b;
 }
 
 /** Destroy the buffer.
- * @param b a buffer created with hsql__create_buffer()
+ * @param b a buffer created with yy_create_buffer()
  * @param yyscanner The scanner object.
  */
-    void hsql__delete_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
+    void yy_delete_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
@@ -4744,28 +4974,28 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
 		YY_CURRENT_BUFFER_LVALUE = (YY_BUFFER_STATE) 0;
 
 	if ( b->yy_is_our_buffer )
-		hsql_free((void *) b->yy_ch_buf ,yyscanner );
+		yyfree( (void *) b->yy_ch_buf , yyscanner );
 
-	hsql_free((void *) b ,yyscanner );
+	yyfree( (void *) b , yyscanner );
 }
 
 /* Initializes or reinitializes a buffer.
  * This function is sometimes called more than once on the same buffer,
- * such as during a hsql_restart() or at EOF.
+ * such as during a yyrestart() or at EOF.
  */
-    static void hsql__init_buffer  (YY_BUFFER_STATE  b, FILE * file , yyscan_t yyscanner)
+    static void yy_init_buffer  (YY_BUFFER_STATE  b, FILE * file , yyscan_t yyscanner)
 
 {
 	int oerrno = errno;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
-	hsql__flush_buffer(b ,yyscanner);
+	yy_flush_buffer( b , yyscanner);
 
 	b->yy_input_file = file;
 	b->yy_fill_buffer = 1;
 
-    /* If b is the current buffer, then hsql__init_buffer was _probably_
-     * called from hsql_restart() or through yy_get_next_buffer.
+    /* If b is the current buffer, then yy_init_buffer was _probably_
+     * called from yyrestart() or through yy_get_next_buffer.
      * In that case, we don't want to reset the lineno or column.
      */
     if (b != YY_CURRENT_BUFFER){
@@ -4782,7 +5012,7 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  * @param b the buffer state to be flushed, usually @c YY_CURRENT_BUFFER.
  * @param yyscanner The scanner object.
  */
-    void hsql__flush_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
+    void yy_flush_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if ( ! b )
@@ -4803,7 +5033,7 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
 	if ( b == YY_CURRENT_BUFFER )
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 }
 
 /** Pushes the new state onto the stack. The new state becomes
@@ -4812,15 +5042,15 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  *  @param new_buffer The new state.
  *  @param yyscanner The scanner object.
  */
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
+void yypush_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if (new_buffer == NULL)
 		return;
 
-	hsql_ensure_buffer_stack(yyscanner);
+	yyensure_buffer_stack(yyscanner);
 
-	/* This block is copied from hsql__switch_to_buffer. */
+	/* This block is copied from yy_switch_to_buffer. */
 	if ( YY_CURRENT_BUFFER )
 		{
 		/* Flush out information for old buffer. */
@@ -4834,8 +5064,8 @@ void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
 		yyg->yy_buffer_stack_top++;
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
 
-	/* copied from hsql__switch_to_buffer. */
-	hsql__load_buffer_state(yyscanner );
+	/* copied from yy_switch_to_buffer. */
+	yy_load_buffer_state( yyscanner );
 	yyg->yy_did_buffer_switch_on_eof = 1;
 }
 
@@ -4843,19 +5073,19 @@ void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
  *  The next element becomes the new top.
  *  @param yyscanner The scanner object.
  */
-void hsql_pop_buffer_state (yyscan_t yyscanner)
+void yypop_buffer_state (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if (!YY_CURRENT_BUFFER)
 		return;
 
-	hsql__delete_buffer(YY_CURRENT_BUFFER ,yyscanner);
+	yy_delete_buffer(YY_CURRENT_BUFFER , yyscanner);
 	YY_CURRENT_BUFFER_LVALUE = NULL;
 	if (yyg->yy_buffer_stack_top > 0)
 		--yyg->yy_buffer_stack_top;
 
 	if (YY_CURRENT_BUFFER) {
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 		yyg->yy_did_buffer_switch_on_eof = 1;
 	}
 }
@@ -4863,9 +5093,9 @@ void hsql_pop_buffer_state (yyscan_t yyscanner)
 /* Allocates the stack if it does not exist.
  *  Guarantees space for at least one push.
  */
-static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
+static void yyensure_buffer_stack (yyscan_t yyscanner)
 {
-	int num_to_alloc;
+	yy_size_t num_to_alloc;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	if (!yyg->yy_buffer_stack) {
@@ -4875,14 +5105,14 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
 		 * immediate realloc on the next call.
          */
       num_to_alloc = 1; /* After all that talk, this was set to 1 anyways... */
-		yyg->yy_buffer_stack = (struct yy_buffer_state**)hsql_alloc
+		yyg->yy_buffer_stack = (struct yy_buffer_state**)yyalloc
 								(num_to_alloc * sizeof(struct yy_buffer_state*)
 								, yyscanner);
 		if ( ! yyg->yy_buffer_stack )
-			YY_FATAL_ERROR( "out of dynamic memory in hsql_ensure_buffer_stack()" );
-								  
+			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
+
 		memset(yyg->yy_buffer_stack, 0, num_to_alloc * sizeof(struct yy_buffer_state*));
-				
+
 		yyg->yy_buffer_stack_max = num_to_alloc;
 		yyg->yy_buffer_stack_top = 0;
 		return;
@@ -4894,12 +5124,12 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
 		yy_size_t grow_size = 8 /* arbitrary grow size */;
 
 		num_to_alloc = yyg->yy_buffer_stack_max + grow_size;
-		yyg->yy_buffer_stack = (struct yy_buffer_state**)hsql_realloc
+		yyg->yy_buffer_stack = (struct yy_buffer_state**)yyrealloc
 								(yyg->yy_buffer_stack,
 								num_to_alloc * sizeof(struct yy_buffer_state*)
 								, yyscanner);
 		if ( ! yyg->yy_buffer_stack )
-			YY_FATAL_ERROR( "out of dynamic memory in hsql_ensure_buffer_stack()" );
+			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
 
 		/* zero only the new slots.*/
 		memset(yyg->yy_buffer_stack + yyg->yy_buffer_stack_max, 0, grow_size * sizeof(struct yy_buffer_state*));
@@ -4911,9 +5141,9 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
  * @param base the character buffer
  * @param size the size in bytes of the character buffer
  * @param yyscanner The scanner object.
- * @return the newly allocated buffer state object. 
+ * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_buffer  (char * base, yy_size_t  size , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
     
@@ -4923,9 +5153,9 @@ YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yysc
 		/* They forgot to leave room for the EOB's. */
 		return NULL;
 
-	b = (YY_BUFFER_STATE) hsql_alloc(sizeof( struct yy_buffer_state ) ,yyscanner );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state ) , yyscanner );
 	if ( ! b )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__scan_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_buffer()" );
 
 	b->yy_buf_size = (int) (size - 2);	/* "- 2" to take care of EOB's */
 	b->yy_buf_pos = b->yy_ch_buf = base;
@@ -4937,33 +5167,33 @@ YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yysc
 	b->yy_fill_buffer = 0;
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
-	hsql__switch_to_buffer(b ,yyscanner );
+	yy_switch_to_buffer( b , yyscanner );
 
 	return b;
 }
 
-/** Setup the input buffer state to scan a string. The next call to hsql_lex() will
+/** Setup the input buffer state to scan a string. The next call to yylex() will
  * scan from a @e copy of @a str.
  * @param yystr a NUL-terminated string to scan
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  * @note If you want to scan bytes that may contain NUL values, then use
- *       hsql__scan_bytes() instead.
+ *       yy_scan_bytes() instead.
  */
-YY_BUFFER_STATE hsql__scan_string (yyconst char * yystr , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_string (const char * yystr , yyscan_t yyscanner)
 {
     
-	return hsql__scan_bytes(yystr,(int) strlen(yystr) ,yyscanner);
+	return yy_scan_bytes( yystr, (int) strlen(yystr) , yyscanner);
 }
 
-/** Setup the input buffer state to scan the given bytes. The next call to hsql_lex() will
+/** Setup the input buffer state to scan the given bytes. The next call to yylex() will
  * scan from a @e copy of @a bytes.
  * @param yybytes the byte buffer to scan
  * @param _yybytes_len the number of bytes in the buffer pointed to by @a bytes.
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
 	char *buf;
@@ -4972,18 +5202,18 @@ YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , y
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
 	n = (yy_size_t) (_yybytes_len + 2);
-	buf = (char *) hsql_alloc(n ,yyscanner );
+	buf = (char *) yyalloc( n , yyscanner );
 	if ( ! buf )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__scan_bytes()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_bytes()" );
 
 	for ( i = 0; i < _yybytes_len; ++i )
 		buf[i] = yybytes[i];
 
 	buf[_yybytes_len] = buf[_yybytes_len+1] = YY_END_OF_BUFFER_CHAR;
 
-	b = hsql__scan_buffer(buf,n ,yyscanner);
+	b = yy_scan_buffer( buf, n , yyscanner);
 	if ( ! b )
-		YY_FATAL_ERROR( "bad buffer in hsql__scan_bytes()" );
+		YY_FATAL_ERROR( "bad buffer in yy_scan_bytes()" );
 
 	/* It's okay to grow etc. this buffer, and we should throw it
 	 * away when we're done.
@@ -4997,11 +5227,11 @@ YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , y
 #define YY_EXIT_FAILURE 2
 #endif
 
-static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
+static void yynoreturn yy_fatal_error (const char* msg , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
-	(void) fprintf( stderr, "%s\n", msg );
+	fprintf( stderr, "%s\n", msg );
 	exit( YY_EXIT_FAILURE );
 }
 
@@ -5012,7 +5242,7 @@ static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		yytext[yyleng] = yyg->yy_hold_char; \
 		yyg->yy_c_buf_p = yytext + yyless_macro_arg; \
@@ -5027,7 +5257,7 @@ static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
 /** Get the user-defined data for this scanner.
  * @param yyscanner The scanner object.
  */
-YY_EXTRA_TYPE hsql_get_extra  (yyscan_t yyscanner)
+YY_EXTRA_TYPE yyget_extra  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyextra;
@@ -5036,10 +5266,10 @@ YY_EXTRA_TYPE hsql_get_extra  (yyscan_t yyscanner)
 /** Get the current line number.
  * @param yyscanner The scanner object.
  */
-int hsql_get_lineno  (yyscan_t yyscanner)
+int yyget_lineno  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
-    
+
         if (! YY_CURRENT_BUFFER)
             return 0;
     
@@ -5049,10 +5279,10 @@ int hsql_get_lineno  (yyscan_t yyscanner)
 /** Get the current column number.
  * @param yyscanner The scanner object.
  */
-int hsql_get_column  (yyscan_t yyscanner)
+int yyget_column  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
-    
+
         if (! YY_CURRENT_BUFFER)
             return 0;
     
@@ -5062,7 +5292,7 @@ int hsql_get_column  (yyscan_t yyscanner)
 /** Get the input stream.
  * @param yyscanner The scanner object.
  */
-FILE *hsql_get_in  (yyscan_t yyscanner)
+FILE *yyget_in  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyin;
@@ -5071,7 +5301,7 @@ FILE *hsql_get_in  (yyscan_t yyscanner)
 /** Get the output stream.
  * @param yyscanner The scanner object.
  */
-FILE *hsql_get_out  (yyscan_t yyscanner)
+FILE *yyget_out  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyout;
@@ -5080,7 +5310,7 @@ FILE *hsql_get_out  (yyscan_t yyscanner)
 /** Get the length of the current token.
  * @param yyscanner The scanner object.
  */
-int hsql_get_leng  (yyscan_t yyscanner)
+int yyget_leng  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyleng;
@@ -5090,7 +5320,7 @@ int hsql_get_leng  (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  */
 
-char *hsql_get_text  (yyscan_t yyscanner)
+char *yyget_text  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yytext;
@@ -5100,7 +5330,7 @@ char *hsql_get_text  (yyscan_t yyscanner)
  * @param user_defined The data to be associated with this scanner.
  * @param yyscanner The scanner object.
  */
-void hsql_set_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
+void yyset_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyextra = user_defined ;
@@ -5110,13 +5340,13 @@ void hsql_set_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
  * @param _line_number line number
  * @param yyscanner The scanner object.
  */
-void hsql_set_lineno (int  _line_number , yyscan_t yyscanner)
+void yyset_lineno (int  _line_number , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
         /* lineno is only valid if an input buffer exists. */
         if (! YY_CURRENT_BUFFER )
-           YY_FATAL_ERROR( "hsql_set_lineno called with no buffer" );
+           YY_FATAL_ERROR( "yyset_lineno called with no buffer" );
     
     yylineno = _line_number;
 }
@@ -5125,13 +5355,13 @@ void hsql_set_lineno (int  _line_number , yyscan_t yyscanner)
  * @param _column_no column number
  * @param yyscanner The scanner object.
  */
-void hsql_set_column (int  _column_no , yyscan_t yyscanner)
+void yyset_column (int  _column_no , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
         /* column is only valid if an input buffer exists. */
         if (! YY_CURRENT_BUFFER )
-           YY_FATAL_ERROR( "hsql_set_column called with no buffer" );
+           YY_FATAL_ERROR( "yyset_column called with no buffer" );
     
     yycolumn = _column_no;
 }
@@ -5140,27 +5370,27 @@ void hsql_set_column (int  _column_no , yyscan_t yyscanner)
  * input buffer.
  * @param _in_str A readable stream.
  * @param yyscanner The scanner object.
- * @see hsql__switch_to_buffer
+ * @see yy_switch_to_buffer
  */
-void hsql_set_in (FILE *  _in_str , yyscan_t yyscanner)
+void yyset_in (FILE *  _in_str , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyin = _in_str ;
 }
 
-void hsql_set_out (FILE *  _out_str , yyscan_t yyscanner)
+void yyset_out (FILE *  _out_str , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyout = _out_str ;
 }
 
-int hsql_get_debug  (yyscan_t yyscanner)
+int yyget_debug  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yy_flex_debug;
 }
 
-void hsql_set_debug (int  _bdebug , yyscan_t yyscanner)
+void yyset_debug (int  _bdebug , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yy_flex_debug = _bdebug ;
@@ -5168,25 +5398,25 @@ void hsql_set_debug (int  _bdebug , yyscan_t yyscanner)
 
 /* Accessor methods for yylval and yylloc */
 
-YYSTYPE * hsql_get_lval  (yyscan_t yyscanner)
+YYSTYPE * yyget_lval  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yylval;
 }
 
-void hsql_set_lval (YYSTYPE *  yylval_param , yyscan_t yyscanner)
+void yyset_lval (YYSTYPE *  yylval_param , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yylval = yylval_param;
 }
 
-YYLTYPE *hsql_get_lloc  (yyscan_t yyscanner)
+YYLTYPE *yyget_lloc  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yylloc;
 }
     
-void hsql_set_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
+void yyset_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yylloc = yylloc_param;
@@ -5194,20 +5424,18 @@ void hsql_set_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
     
 /* User-visible API */
 
-/* hsql_lex_init is special because it creates the scanner itself, so it is
+/* yylex_init is special because it creates the scanner itself, so it is
  * the ONLY reentrant function that doesn't take the scanner as the last argument.
  * That's why we explicitly handle the declaration, instead of using our macros.
  */
-
-int hsql_lex_init(yyscan_t* ptr_yy_globals)
-
+int yylex_init(yyscan_t* ptr_yy_globals)
 {
     if (ptr_yy_globals == NULL){
         errno = EINVAL;
         return 1;
     }
 
-    *ptr_yy_globals = (yyscan_t) hsql_alloc ( sizeof( struct yyguts_t ), NULL );
+    *ptr_yy_globals = (yyscan_t) yyalloc ( sizeof( struct yyguts_t ), NULL );
 
     if (*ptr_yy_globals == NULL){
         errno = ENOMEM;
@@ -5220,39 +5448,37 @@ int hsql_lex_init(yyscan_t* ptr_yy_globals)
     return yy_init_globals ( *ptr_yy_globals );
 }
 
-/* hsql_lex_init_extra has the same functionality as hsql_lex_init, but follows the
+/* yylex_init_extra has the same functionality as yylex_init, but follows the
  * convention of taking the scanner as the last argument. Note however, that
  * this is a *pointer* to a scanner, as it will be allocated by this call (and
  * is the reason, too, why this function also must handle its own declaration).
- * The user defined value in the first argument will be available to hsql_alloc in
+ * The user defined value in the first argument will be available to yyalloc in
  * the yyextra field.
  */
-
-int hsql_lex_init_extra(YY_EXTRA_TYPE yy_user_defined,yyscan_t* ptr_yy_globals )
-
+int yylex_init_extra( YY_EXTRA_TYPE yy_user_defined, yyscan_t* ptr_yy_globals )
 {
     struct yyguts_t dummy_yyguts;
 
-    hsql_set_extra (yy_user_defined, &dummy_yyguts);
+    yyset_extra (yy_user_defined, &dummy_yyguts);
 
     if (ptr_yy_globals == NULL){
         errno = EINVAL;
         return 1;
     }
-	
-    *ptr_yy_globals = (yyscan_t) hsql_alloc ( sizeof( struct yyguts_t ), &dummy_yyguts );
-	
+
+    *ptr_yy_globals = (yyscan_t) yyalloc ( sizeof( struct yyguts_t ), &dummy_yyguts );
+
     if (*ptr_yy_globals == NULL){
         errno = ENOMEM;
         return 1;
     }
-    
+
     /* By setting to 0xAA, we expose bugs in
     yy_init_globals. Leave at 0x00 for releases. */
     memset(*ptr_yy_globals,0x00,sizeof(struct yyguts_t));
-    
-    hsql_set_extra (yy_user_defined, *ptr_yy_globals);
-    
+
+    yyset_extra (yy_user_defined, *ptr_yy_globals);
+
     return yy_init_globals ( *ptr_yy_globals );
 }
 
@@ -5260,7 +5486,7 @@ static int yy_init_globals (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     /* Initialization is the same as for the non-reentrant scanner.
-     * This function is called from hsql_lex_destroy(), so don't allocate here.
+     * This function is called from yylex_destroy(), so don't allocate here.
      */
 
     yyg->yy_buffer_stack = NULL;
@@ -5284,37 +5510,37 @@ static int yy_init_globals (yyscan_t yyscanner)
 #endif
 
     /* For future reference: Set errno on error, since we are called by
-     * hsql_lex_init()
+     * yylex_init()
      */
     return 0;
 }
 
-/* hsql_lex_destroy is for both reentrant and non-reentrant scanners. */
-int hsql_lex_destroy  (yyscan_t yyscanner)
+/* yylex_destroy is for both reentrant and non-reentrant scanners. */
+int yylex_destroy  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
     /* Pop the buffer stack, destroying each element. */
 	while(YY_CURRENT_BUFFER){
-		hsql__delete_buffer(YY_CURRENT_BUFFER ,yyscanner );
+		yy_delete_buffer( YY_CURRENT_BUFFER , yyscanner );
 		YY_CURRENT_BUFFER_LVALUE = NULL;
-		hsql_pop_buffer_state(yyscanner);
+		yypop_buffer_state(yyscanner);
 	}
 
 	/* Destroy the stack itself. */
-	hsql_free(yyg->yy_buffer_stack ,yyscanner);
+	yyfree(yyg->yy_buffer_stack , yyscanner);
 	yyg->yy_buffer_stack = NULL;
 
     /* Destroy the start condition stack. */
-        hsql_free(yyg->yy_start_stack ,yyscanner );
+        yyfree( yyg->yy_start_stack , yyscanner );
         yyg->yy_start_stack = NULL;
 
     /* Reset the globals. This is important in a non-reentrant scanner so the next time
-     * hsql_lex() is called, initialization will occur. */
+     * yylex() is called, initialization will occur. */
     yy_init_globals( yyscanner);
 
     /* Destroy the main struct (reentrant only). */
-    hsql_free ( yyscanner , yyscanner );
+    yyfree ( yyscanner , yyscanner );
     yyscanner = NULL;
     return 0;
 }
@@ -5324,7 +5550,7 @@ int hsql_lex_destroy  (yyscan_t yyscanner)
  */
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char* s1, yyconst char * s2, int n , yyscan_t yyscanner)
+static void yy_flex_strncpy (char* s1, const char * s2, int n , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
@@ -5336,7 +5562,7 @@ static void yy_flex_strncpy (char* s1, yyconst char * s2, int n , yyscan_t yysca
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * s , yyscan_t yyscanner)
+static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 {
 	int n;
 	for ( n = 0; s[n]; ++n )
@@ -5346,14 +5572,14 @@ static int yy_flex_strlen (yyconst char * s , yyscan_t yyscanner)
 }
 #endif
 
-void *hsql_alloc (yy_size_t  size , yyscan_t yyscanner)
+void *yyalloc (yy_size_t  size , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
 	return malloc(size);
 }
 
-void *hsql_realloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
+void *yyrealloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
@@ -5368,18 +5594,17 @@ void *hsql_realloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
 	return realloc(ptr, size);
 }
 
-void hsql_free (void * ptr , yyscan_t yyscanner)
+void yyfree (void * ptr , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
-	free( (char *) ptr );	/* see hsql_realloc() for (char *) cast */
+	free( (char *) ptr );	/* see yyrealloc() for (char *) cast */
 }
 
 #define YYTABLES_NAME "yytables"
 
 #line 288 "flex_lexer.l"
 
-
 /***************************
  ** Section 3: User code
  ***************************/
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 8beb9fd..76e89d4 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -13,11 +13,245 @@
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
 #define YY_FLEX_MINOR_VERSION 6
-#define YY_FLEX_SUBMINOR_VERSION 1
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
 
+#ifdef yy_create_buffer
+#define hsql__create_buffer_ALREADY_DEFINED
+#else
+#define yy_create_buffer hsql__create_buffer
+#endif
+
+#ifdef yy_delete_buffer
+#define hsql__delete_buffer_ALREADY_DEFINED
+#else
+#define yy_delete_buffer hsql__delete_buffer
+#endif
+
+#ifdef yy_scan_buffer
+#define hsql__scan_buffer_ALREADY_DEFINED
+#else
+#define yy_scan_buffer hsql__scan_buffer
+#endif
+
+#ifdef yy_scan_string
+#define hsql__scan_string_ALREADY_DEFINED
+#else
+#define yy_scan_string hsql__scan_string
+#endif
+
+#ifdef yy_scan_bytes
+#define hsql__scan_bytes_ALREADY_DEFINED
+#else
+#define yy_scan_bytes hsql__scan_bytes
+#endif
+
+#ifdef yy_init_buffer
+#define hsql__init_buffer_ALREADY_DEFINED
+#else
+#define yy_init_buffer hsql__init_buffer
+#endif
+
+#ifdef yy_flush_buffer
+#define hsql__flush_buffer_ALREADY_DEFINED
+#else
+#define yy_flush_buffer hsql__flush_buffer
+#endif
+
+#ifdef yy_load_buffer_state
+#define hsql__load_buffer_state_ALREADY_DEFINED
+#else
+#define yy_load_buffer_state hsql__load_buffer_state
+#endif
+
+#ifdef yy_switch_to_buffer
+#define hsql__switch_to_buffer_ALREADY_DEFINED
+#else
+#define yy_switch_to_buffer hsql__switch_to_buffer
+#endif
+
+#ifdef yypush_buffer_state
+#define hsql_push_buffer_state_ALREADY_DEFINED
+#else
+#define yypush_buffer_state hsql_push_buffer_state
+#endif
+
+#ifdef yypop_buffer_state
+#define hsql_pop_buffer_state_ALREADY_DEFINED
+#else
+#define yypop_buffer_state hsql_pop_buffer_state
+#endif
+
+#ifdef yyensure_buffer_stack
+#define hsql_ensure_buffer_stack_ALREADY_DEFINED
+#else
+#define yyensure_buffer_stack hsql_ensure_buffer_stack
+#endif
+
+#ifdef yylex
+#define hsql_lex_ALREADY_DEFINED
+#else
+#define yylex hsql_lex
+#endif
+
+#ifdef yyrestart
+#define hsql_restart_ALREADY_DEFINED
+#else
+#define yyrestart hsql_restart
+#endif
+
+#ifdef yylex_init
+#define hsql_lex_init_ALREADY_DEFINED
+#else
+#define yylex_init hsql_lex_init
+#endif
+
+#ifdef yylex_init_extra
+#define hsql_lex_init_extra_ALREADY_DEFINED
+#else
+#define yylex_init_extra hsql_lex_init_extra
+#endif
+
+#ifdef yylex_destroy
+#define hsql_lex_destroy_ALREADY_DEFINED
+#else
+#define yylex_destroy hsql_lex_destroy
+#endif
+
+#ifdef yyget_debug
+#define hsql_get_debug_ALREADY_DEFINED
+#else
+#define yyget_debug hsql_get_debug
+#endif
+
+#ifdef yyset_debug
+#define hsql_set_debug_ALREADY_DEFINED
+#else
+#define yyset_debug hsql_set_debug
+#endif
+
+#ifdef yyget_extra
+#define hsql_get_extra_ALREADY_DEFINED
+#else
+#define yyget_extra hsql_get_extra
+#endif
+
+#ifdef yyset_extra
+#define hsql_set_extra_ALREADY_DEFINED
+#else
+#define yyset_extra hsql_set_extra
+#endif
+
+#ifdef yyget_in
+#define hsql_get_in_ALREADY_DEFINED
+#else
+#define yyget_in hsql_get_in
+#endif
+
+#ifdef yyset_in
+#define hsql_set_in_ALREADY_DEFINED
+#else
+#define yyset_in hsql_set_in
+#endif
+
+#ifdef yyget_out
+#define hsql_get_out_ALREADY_DEFINED
+#else
+#define yyget_out hsql_get_out
+#endif
+
+#ifdef yyset_out
+#define hsql_set_out_ALREADY_DEFINED
+#else
+#define yyset_out hsql_set_out
+#endif
+
+#ifdef yyget_leng
+#define hsql_get_leng_ALREADY_DEFINED
+#else
+#define yyget_leng hsql_get_leng
+#endif
+
+#ifdef yyget_text
+#define hsql_get_text_ALREADY_DEFINED
+#else
+#define yyget_text hsql_get_text
+#endif
+
+#ifdef yyget_lineno
+#define hsql_get_lineno_ALREADY_DEFINED
+#else
+#define yyget_lineno hsql_get_lineno
+#endif
+
+#ifdef yyset_lineno
+#define hsql_set_lineno_ALREADY_DEFINED
+#else
+#define yyset_lineno hsql_set_lineno
+#endif
+
+#ifdef yyget_column
+#define hsql_get_column_ALREADY_DEFINED
+#else
+#define yyget_column hsql_get_column
+#endif
+
+#ifdef yyset_column
+#define hsql_set_column_ALREADY_DEFINED
+#else
+#define yyset_column hsql_set_column
+#endif
+
+#ifdef yywrap
+#define hsql_wrap_ALREADY_DEFINED
+#else
+#define yywrap hsql_wrap
+#endif
+
+#ifdef yyget_lval
+#define hsql_get_lval_ALREADY_DEFINED
+#else
+#define yyget_lval hsql_get_lval
+#endif
+
+#ifdef yyset_lval
+#define hsql_set_lval_ALREADY_DEFINED
+#else
+#define yyset_lval hsql_set_lval
+#endif
+
+#ifdef yyget_lloc
+#define hsql_get_lloc_ALREADY_DEFINED
+#else
+#define yyget_lloc hsql_get_lloc
+#endif
+
+#ifdef yyset_lloc
+#define hsql_set_lloc_ALREADY_DEFINED
+#else
+#define yyset_lloc hsql_set_lloc
+#endif
+
+#ifdef yyalloc
+#define hsql_alloc_ALREADY_DEFINED
+#else
+#define yyalloc hsql_alloc
+#endif
+
+#ifdef yyrealloc
+#define hsql_realloc_ALREADY_DEFINED
+#else
+#define yyrealloc hsql_realloc
+#endif
+
+#ifdef yyfree
+#define hsql_free_ALREADY_DEFINED
+#else
+#define yyfree hsql_free
+#endif
+
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
@@ -88,10 +322,16 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
+/* begin standard C++ headers. */
+
 /* TODO: this is always defined, so inline it */
 #define yyconst const
 
@@ -181,7 +421,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -192,21 +432,21 @@ struct yy_buffer_state
 	};
 #endif /* !YY_STRUCT_YY_BUFFER_STATE */
 
-void hsql_restart (FILE *input_file ,yyscan_t yyscanner );
-void hsql__switch_to_buffer (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__create_buffer (FILE *file,int size ,yyscan_t yyscanner );
-void hsql__delete_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql__flush_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-void hsql_pop_buffer_state (yyscan_t yyscanner );
+void yyrestart ( FILE *input_file , yyscan_t yyscanner );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size , yyscan_t yyscanner );
+void yy_delete_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yy_flush_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+void yypop_buffer_state ( yyscan_t yyscanner );
 
-YY_BUFFER_STATE hsql__scan_buffer (char *base,yy_size_t size ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_string (yyconst char *yy_str ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_bytes (yyconst char *bytes,int len ,yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
-void *hsql_alloc (yy_size_t ,yyscan_t yyscanner );
-void *hsql_realloc (void *,yy_size_t ,yyscan_t yyscanner );
-void hsql_free (void * ,yyscan_t yyscanner );
+void *yyalloc ( yy_size_t , yyscan_t yyscanner );
+void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
+void yyfree ( void * , yyscan_t yyscanner );
 
 /* Begin user sect3 */
 
@@ -234,50 +474,50 @@ void hsql_free (void * ,yyscan_t yyscanner );
 #define YY_EXTRA_TYPE void *
 #endif
 
-int hsql_lex_init (yyscan_t* scanner);
+int yylex_init (yyscan_t* scanner);
 
-int hsql_lex_init_extra (YY_EXTRA_TYPE user_defined,yyscan_t* scanner);
+int yylex_init_extra ( YY_EXTRA_TYPE user_defined, yyscan_t* scanner);
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int hsql_lex_destroy (yyscan_t yyscanner );
+int yylex_destroy ( yyscan_t yyscanner );
 
-int hsql_get_debug (yyscan_t yyscanner );
+int yyget_debug ( yyscan_t yyscanner );
 
-void hsql_set_debug (int debug_flag ,yyscan_t yyscanner );
+void yyset_debug ( int debug_flag , yyscan_t yyscanner );
 
-YY_EXTRA_TYPE hsql_get_extra (yyscan_t yyscanner );
+YY_EXTRA_TYPE yyget_extra ( yyscan_t yyscanner );
 
-void hsql_set_extra (YY_EXTRA_TYPE user_defined ,yyscan_t yyscanner );
+void yyset_extra ( YY_EXTRA_TYPE user_defined , yyscan_t yyscanner );
 
-FILE *hsql_get_in (yyscan_t yyscanner );
+FILE *yyget_in ( yyscan_t yyscanner );
 
-void hsql_set_in  (FILE * _in_str ,yyscan_t yyscanner );
+void yyset_in  ( FILE * _in_str , yyscan_t yyscanner );
 
-FILE *hsql_get_out (yyscan_t yyscanner );
+FILE *yyget_out ( yyscan_t yyscanner );
 
-void hsql_set_out  (FILE * _out_str ,yyscan_t yyscanner );
+void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			int hsql_get_leng (yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
-char *hsql_get_text (yyscan_t yyscanner );
+char *yyget_text ( yyscan_t yyscanner );
 
-int hsql_get_lineno (yyscan_t yyscanner );
+int yyget_lineno ( yyscan_t yyscanner );
 
-void hsql_set_lineno (int _line_number ,yyscan_t yyscanner );
+void yyset_lineno ( int _line_number , yyscan_t yyscanner );
 
-int hsql_get_column  (yyscan_t yyscanner );
+int yyget_column  ( yyscan_t yyscanner );
 
-void hsql_set_column (int _column_no ,yyscan_t yyscanner );
+void yyset_column ( int _column_no , yyscan_t yyscanner );
 
-YYSTYPE * hsql_get_lval (yyscan_t yyscanner );
+YYSTYPE * yyget_lval ( yyscan_t yyscanner );
 
-void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
+void yyset_lval ( YYSTYPE * yylval_param , yyscan_t yyscanner );
 
-       YYLTYPE *hsql_get_lloc (yyscan_t yyscanner );
+       YYLTYPE *yyget_lloc ( yyscan_t yyscanner );
     
-        void hsql_set_lloc (YYLTYPE * yylloc_param ,yyscan_t yyscanner );
+        void yyset_lloc ( YYLTYPE * yylloc_param , yyscan_t yyscanner );
     
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -285,18 +525,18 @@ void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int hsql_wrap (yyscan_t yyscanner );
+extern "C" int yywrap ( yyscan_t yyscanner );
 #else
-extern int hsql_wrap (yyscan_t yyscanner );
+extern int yywrap ( yyscan_t yyscanner );
 #endif
 #endif
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int ,yyscan_t yyscanner);
+static void yy_flex_strncpy ( char *, const char *, int , yyscan_t yyscanner);
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
+static int yy_flex_strlen ( const char * , yyscan_t yyscanner);
 #endif
 
 #ifndef YY_NO_INPUT
@@ -324,10 +564,10 @@ static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
 #ifndef YY_DECL
 #define YY_DECL_IS_OURS 1
 
-extern int hsql_lex \
-               (YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yyscanner);
+extern int yylex \
+               (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner);
 
-#define YY_DECL int hsql_lex \
+#define YY_DECL int yylex \
                (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner)
 #endif /* !YY_DECL */
 
@@ -345,9 +585,154 @@ extern int hsql_lex \
 #undef YY_DECL
 #endif
 
+#ifndef hsql__create_buffer_ALREADY_DEFINED
+#undef yy_create_buffer
+#endif
+#ifndef hsql__delete_buffer_ALREADY_DEFINED
+#undef yy_delete_buffer
+#endif
+#ifndef hsql__scan_buffer_ALREADY_DEFINED
+#undef yy_scan_buffer
+#endif
+#ifndef hsql__scan_string_ALREADY_DEFINED
+#undef yy_scan_string
+#endif
+#ifndef hsql__scan_bytes_ALREADY_DEFINED
+#undef yy_scan_bytes
+#endif
+#ifndef hsql__init_buffer_ALREADY_DEFINED
+#undef yy_init_buffer
+#endif
+#ifndef hsql__flush_buffer_ALREADY_DEFINED
+#undef yy_flush_buffer
+#endif
+#ifndef hsql__load_buffer_state_ALREADY_DEFINED
+#undef yy_load_buffer_state
+#endif
+#ifndef hsql__switch_to_buffer_ALREADY_DEFINED
+#undef yy_switch_to_buffer
+#endif
+#ifndef hsql_push_buffer_state_ALREADY_DEFINED
+#undef yypush_buffer_state
+#endif
+#ifndef hsql_pop_buffer_state_ALREADY_DEFINED
+#undef yypop_buffer_state
+#endif
+#ifndef hsql_ensure_buffer_stack_ALREADY_DEFINED
+#undef yyensure_buffer_stack
+#endif
+#ifndef hsql_lex_ALREADY_DEFINED
+#undef yylex
+#endif
+#ifndef hsql_restart_ALREADY_DEFINED
+#undef yyrestart
+#endif
+#ifndef hsql_lex_init_ALREADY_DEFINED
+#undef yylex_init
+#endif
+#ifndef hsql_lex_init_extra_ALREADY_DEFINED
+#undef yylex_init_extra
+#endif
+#ifndef hsql_lex_destroy_ALREADY_DEFINED
+#undef yylex_destroy
+#endif
+#ifndef hsql_get_debug_ALREADY_DEFINED
+#undef yyget_debug
+#endif
+#ifndef hsql_set_debug_ALREADY_DEFINED
+#undef yyset_debug
+#endif
+#ifndef hsql_get_extra_ALREADY_DEFINED
+#undef yyget_extra
+#endif
+#ifndef hsql_set_extra_ALREADY_DEFINED
+#undef yyset_extra
+#endif
+#ifndef hsql_get_in_ALREADY_DEFINED
+#undef yyget_in
+#endif
+#ifndef hsql_set_in_ALREADY_DEFINED
+#undef yyset_in
+#endif
+#ifndef hsql_get_out_ALREADY_DEFINED
+#undef yyget_out
+#endif
+#ifndef hsql_set_out_ALREADY_DEFINED
+#undef yyset_out
+#endif
+#ifndef hsql_get_leng_ALREADY_DEFINED
+#undef yyget_leng
+#endif
+#ifndef hsql_get_text_ALREADY_DEFINED
+#undef yyget_text
+#endif
+#ifndef hsql_get_lineno_ALREADY_DEFINED
+#undef yyget_lineno
+#endif
+#ifndef hsql_set_lineno_ALREADY_DEFINED
+#undef yyset_lineno
+#endif
+#ifndef hsql_get_column_ALREADY_DEFINED
+#undef yyget_column
+#endif
+#ifndef hsql_set_column_ALREADY_DEFINED
+#undef yyset_column
+#endif
+#ifndef hsql_wrap_ALREADY_DEFINED
+#undef yywrap
+#endif
+#ifndef hsql_get_lval_ALREADY_DEFINED
+#undef yyget_lval
+#endif
+#ifndef hsql_set_lval_ALREADY_DEFINED
+#undef yyset_lval
+#endif
+#ifndef hsql_get_lloc_ALREADY_DEFINED
+#undef yyget_lloc
+#endif
+#ifndef hsql_set_lloc_ALREADY_DEFINED
+#undef yyset_lloc
+#endif
+#ifndef hsql_alloc_ALREADY_DEFINED
+#undef yyalloc
+#endif
+#ifndef hsql_realloc_ALREADY_DEFINED
+#undef yyrealloc
+#endif
+#ifndef hsql_free_ALREADY_DEFINED
+#undef yyfree
+#endif
+#ifndef hsql_text_ALREADY_DEFINED
+#undef yytext
+#endif
+#ifndef hsql_leng_ALREADY_DEFINED
+#undef yyleng
+#endif
+#ifndef hsql_in_ALREADY_DEFINED
+#undef yyin
+#endif
+#ifndef hsql_out_ALREADY_DEFINED
+#undef yyout
+#endif
+#ifndef hsql__flex_debug_ALREADY_DEFINED
+#undef yy_flex_debug
+#endif
+#ifndef hsql_lineno_ALREADY_DEFINED
+#undef yylineno
+#endif
+#ifndef hsql_tables_fload_ALREADY_DEFINED
+#undef yytables_fload
+#endif
+#ifndef hsql_tables_destroy_ALREADY_DEFINED
+#undef yytables_destroy
+#endif
+#ifndef hsql_TABLES_NAME_ALREADY_DEFINED
+#undef yyTABLES_NAME
+#endif
+
 #line 288 "flex_lexer.l"
 
 
-#line 352 "flex_lexer.h"
+#line 737 "flex_lexer.h"
 #undef hsql_IN_HEADER
 #endif /* hsql_HEADER_H */
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index f4cd348..ff72947 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -260,8 +260,8 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
   if (errno) {
-    return fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
-    return 0;
+    fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
+    return SQL_INVALID;
   }
   return SQL_INTVAL;
 }
@@ -281,9 +281,9 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 <singlequotedstring>\'\'    { strbuf << '\''; }
 <singlequotedstring>[^']*   { strbuf << yytext; }
 <singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
-<singlequotedstring><<EOF>> { fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return 0; }
+<singlequotedstring><<EOF>> { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 
-. { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return 0; }
+. { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 
 %%
 /***************************
-- 
2.43.0


From 32c8ff18e21e723d2d476e8de047991536f16cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 03/14] fix: a comment ends at its line end even if the next
 line is indented

The start condition COMMENT is inclusive, so the white space rule won over <COMMENT>\n for a line end that is
followed by more white space, and the comment swallowed the next line.
---
 src/parser/flex_lexer.cpp | 3799 ++++++++++---------------------------
 src/parser/flex_lexer.h   |    5 +-
 src/parser/flex_lexer.l   |    6 +-
 3 files changed, 960 insertions(+), 2850 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 1fd366b..280028e 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -573,8 +573,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 189
-#define YY_END_OF_BUFFER 190
+#define YY_NUM_RULES 187
+#define YY_END_OF_BUFFER 188
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -582,158 +582,83 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[1368] =
+static const flex_int16_t yy_accept[689] =
     {   0,
-        0,    0,  186,  186,    2,    2,  190,  188,    4,    4,
-      188,  188,  177,  184,  177,  177,  181,  177,  177,  177,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  177,  186,  187,    2,    2,    3,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    4,  172,    0,    1,    0,
-      179,  178,  181,  174,  173,  171,  175,  183,  183,  183,
-
-      183,  183,  183,   12,  183,  183,  183,   19,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   73,  183,  183,   76,   85,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  103,  183,  183,
-      108,  111,  112,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  149,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  176,  186,  185,    2,    2,    2,    2,
-        1,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,  182,    0,  178,    5,
-      183,    7,  183,  183,   10,  183,   13,  183,  183,  183,
-
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   34,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,   49,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,   60,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-       80,  183,  183,   88,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  104,  183,  183,  183,  109,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  135,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  150,
-
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    0,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,   20,  183,   22,   23,   24,  183,  183,  183,
-       29,  183,  183,  183,   32,   35,  183,  183,  183,  183,
-      183,   41,  183,  183,  183,   46,   47,  183,  183,  183,
-      183,  183,  183,  183,  183,   57,  183,  183,  183,  183,
-       63,   64,  183,  183,   68,  183,   70,   71,  183,  183,
-
-      183,  183,  183,  183,   84,  183,   87,   89,   90,  183,
-       92,  183,  183,   95,  183,  183,  183,  183,  183,  106,
-      183,  183,  183,  183,  115,  183,  183,  118,  183,  183,
-      183,  183,  123,  183,  183,  183,  183,  183,  129,  183,
-      183,  183,  183,  137,  138,  183,  183,  183,  183,  183,
-      145,  146,  147,  183,  152,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  162,  183,  164,  183,  166,  167,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    0,    6,
-
-        8,  183,   11,  183,   15,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,   31,  183,  183,  183,  183,  183,
-      183,   40,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   56,   58,  183,  183,  183,  183,   66,
-      183,   72,   74,  183,   77,   78,  183,  183,  183,  183,
-       91,   93,  183,   96,   97,  183,  100,  183,  183,  183,
-      183,  113,  114,  183,  183,  183,  183,  183,  122,  183,
-      183,  183,  127,  183,  183,  183,  183,  136,  183,  183,
-      183,  142,  183,  183,  183,  183,  183,  155,  183,  183,
-      183,  159,  183,  183,  183,  165,  168,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,  183,   14,  183,
-
-       17,  183,  183,  183,   25,   27,  183,   30,  183,  183,
-      183,  183,  183,   39,  183,   43,  183,   45,  183,   50,
-       51,  183,   53,  183,  183,  183,  183,   62,   65,   67,
-       69,   75,   79,  183,  183,  183,   86,   94,   98,  101,
-      183,  105,  183,  110,  183,  183,  183,  183,  183,  183,
-      125,  183,  183,  130,  132,  134,  183,  140,  183,  143,
-      183,  183,  183,  183,  183,  156,  157,  158,  160,  183,
-      183,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,    9,   16,   18,
-       21,  183,   26,   28,  183,  183,  183,   37,   38,  183,
-      183,  183,   52,   54,   55,  183,   61,   81,  183,  183,
-       99,  102,  183,  183,  183,  183,  120,  121,  183,  183,
-      183,  131,  133,  183,  141,  183,  183,  183,  183,  183,
-      161,  163,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    0,  183,
-        0,   33,  183,   42,   44,   48,  183,  183,   83,  107,
-      183,  183,  183,  183,  126,  128,  139,  183,  183,  183,
-      153,  183,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,  183,    0,  183,
-       59,   82,  183,  117,  119,  183,  144,  148,  183,  154,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    0,    0,    0,   36,  116,  124,
-      183,    2,    2,    2,    2,    2,    2,    2,    0,    0,
-      169,  151,    2,    2,    2,    2,    0,    0,    2,    2,
-        0,    0,    2,    2,    0,    0,    2,    2,    0,    0,
-        2,    2,    0,    0,    2,    2,    0,  170,    2,    2,
-        0,    2,    0,    2,  180,    2,    0
+        0,    0,  184,  184,  188,  186,    2,    2,  186,  186,
+      175,  182,  175,  175,  179,  175,  175,  175,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  175,  184,  185,    2,  170,    0,    1,    0,
+      177,  176,  179,  172,  171,  169,  173,  181,  181,  181,
+      181,  181,  181,   10,  181,  181,  181,   17,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,   71,  181,  181,   74,   83,  181,  181,
+
+      181,  181,  181,  181,  181,  181,  181,  101,  181,  181,
+      106,  109,  110,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  147,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  174,  184,  183,  180,    1,    0,  176,
+        3,  181,    5,  181,  181,    8,  181,   11,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,   32,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,   47,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,   58,  181,  181,
+
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,   78,  181,  181,   86,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  102,  181,  181,  181,  107,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  133,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      148,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,    0,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,   18,  181,   20,   21,   22,
+      181,  181,  181,   27,  181,  181,  181,   30,   33,  181,
+
+      181,  181,  181,  181,   39,  181,  181,  181,   44,   45,
+      181,  181,  181,  181,  181,  181,  181,  181,   55,  181,
+      181,  181,  181,   61,   62,  181,  181,   66,  181,   68,
+       69,  181,  181,  181,  181,  181,  181,   82,  181,   85,
+       87,   88,  181,   90,  181,  181,   93,  181,  181,  181,
+      181,  181,  104,  181,  181,  181,  181,  113,  181,  181,
+      116,  181,  181,  181,  181,  121,  181,  181,  181,  181,
+      181,  127,  181,  181,  181,  181,  135,  136,  181,  181,
+      181,  181,  181,  143,  144,  145,  181,  150,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  160,  181,  162,
+
+      181,  164,  165,    0,    4,    6,  181,    9,  181,   13,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,   29,
+      181,  181,  181,  181,  181,  181,   38,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,   54,   56,
+      181,  181,  181,  181,   64,  181,   70,   72,  181,   75,
+       76,  181,  181,  181,  181,   89,   91,  181,   94,   95,
+      181,   98,  181,  181,  181,  181,  111,  112,  181,  181,
+      181,  181,  181,  120,  181,  181,  181,  125,  181,  181,
+      181,  181,  134,  181,  181,  181,  140,  181,  181,  181,
+      181,  181,  153,  181,  181,  181,  157,  181,  181,  181,
+
+      163,  166,    0,  181,   12,  181,   15,  181,  181,  181,
+       23,   25,  181,   28,  181,  181,  181,  181,  181,   37,
+      181,   41,  181,   43,  181,   48,   49,  181,   51,  181,
+      181,  181,  181,   60,   63,   65,   67,   73,   77,  181,
+      181,  181,   84,   92,   96,   99,  181,  103,  181,  108,
+      181,  181,  181,  181,  181,  181,  123,  181,  181,  128,
+      130,  132,  181,  138,  181,  141,  181,  181,  181,  181,
+      181,  154,  155,  156,  158,  181,  181,    0,    7,   14,
+       16,   19,  181,   24,   26,  181,  181,  181,   35,   36,
+      181,  181,  181,   50,   52,   53,  181,   59,   79,  181,
+
+      181,   97,  100,  181,  181,  181,  181,  118,  119,  181,
+      181,  181,  129,  131,  181,  139,  181,  181,  181,  181,
+      181,  159,  161,    0,  181,    0,   31,  181,   40,   42,
+       46,  181,  181,   81,  105,  181,  181,  181,  181,  124,
+      126,  137,  181,  181,  181,  151,  181,    0,  181,    0,
+      181,   57,   80,  181,  115,  117,  181,  142,  146,  181,
+      152,    0,    0,    0,   34,  114,  122,  181,    0,    0,
+      167,  149,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,  168,    0,    0,  178,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -780,1315 +705,343 @@ static const YY_CHAR yy_meta[77] =
         5,    5,    5,    5,    5,    1
     } ;
 
-static const flex_int16_t yy_base[1375] =
+static const flex_int16_t yy_base[694] =
     {   0,
-        0,    0,  852,  842,   76,    0,  842, 8955,  151,  153,
-      786,    0, 8955, 8955,  149,  148,  160,  159,  778,  775,
-      156,  156,  165,  210,  202,  255,  151,  163,  265,  152,
-      171,  215,  218,  244,  295,  257,    0,  309,  349,  392,
-      163,  279,  226,  180,  676,    0,  741,    0,  237,  251,
-      696,  702,    0,    0,  243,  378,  451,  237,  682,  680,
-      470,  546,  600,  652,  700,  752,  384,  458,  795,  466,
-      532,  533,  534,  846,  895,  944,  547,  602,  990, 1042,
-      307,  650,  587,  651,  596,  301, 8955,  666, 8955,  636,
-     1107, 1117, 1128, 8955, 8955, 8955, 8955,    0,  218,  243,
-
-      300,  328,  250,  305,  379,  315,  319,    0,  376,  354,
-      694,  389,  345,  440,  710,  387,  388,  436,  439,  476,
-      463,  763,  460,  465,  480,  542,  481,  501,  521,  535,
-      591,  539,  546,    0,  584,  581,  627,  592,  607,  637,
-      657,  658,  717,  646,  658,  686,  681,  734,  705,  720,
-      717,    0,  751,  739,  757,  745,  764,  766,  755,  810,
-      769,  792,  770,  810,  811,  808,  817,  803,  822,  823,
-      842,  827,  820,  842,  871,  861,  858,  862,  866,  897,
-      872,  859,  879, 8955,    0, 8955,    0,  396,    0,  631,
-        0,  614, 1138, 1148, 1159,    0,    0,    0,    0,  942,
-
-      945, 1029,  990, 1156, 1034, 1155, 1202,  934, 1030, 1168,
-     1199, 1218, 1258, 1251, 1270, 1285, 1337, 1334, 1345, 1372,
-     1272, 1422, 1391, 1471, 1399, 1443, 1397, 1481, 1483, 1492,
-     1519, 1531, 1535, 1546, 1577, 1576, 1594, 1624, 1673, 1623,
-     1629, 1648, 1673, 1721, 1773, 1677, 1719, 1765, 1774, 1814,
-     1817, 1838, 1861, 1830, 1874, 1897, 1712, 1909, 1941, 1730,
-     1916, 1993, 1946, 1972, 1990, 2042, 2015, 2033, 2059, 2081,
-     2093, 2095, 2127, 2123, 2145, 2147, 2183, 2230, 2191, 2177,
-     2222, 2239, 2265, 2274, 2287,    0, 8955,  601, 2352,    0,
-      882,    0,  903,  900,    0,  933,    0,  940,  954,  941,
-
-      960,  988, 1001, 1156, 1038, 1038, 1050, 1044, 1137, 1162,
-     1145, 1147, 1166, 1153, 1166, 1203, 1216, 1260, 1221, 1220,
-     1207, 1226, 1215, 1229, 1247,    0, 1280, 1309, 1317, 1309,
-     1321, 1317, 1317, 1339, 1344, 1356, 1369, 1376, 1378, 1390,
-     1379, 1412, 1422, 1423, 1426, 1437, 1436, 1449, 1451, 1480,
-     1537, 1469, 1488,    0, 1490, 1516, 1530, 1537, 1593, 1538,
-     1543, 1532, 1555, 1557,    0, 1592, 1602, 1606, 1613, 1638,
-     1640, 1630, 1682, 1672, 1753, 1727, 1734, 1739, 1770, 1779,
-     1761, 1782, 1779, 1776, 1795, 1790, 1838,    0, 1827, 1824,
-     1867, 1880, 1875, 1876, 1887, 1888, 1886, 1918, 1932,    0,
-
-     1933, 1974, 1934, 1993, 1948, 1999, 1987, 1998, 2046, 2027,
-     2032, 2064, 2045, 2074,    0,  600, 2362, 2355, 2356, 2357,
-     2358, 2281, 2392, 2400, 2401, 2412, 2440, 2448, 2453, 2455,
-     2469, 2518, 2494, 2519, 2532, 2568, 2544, 2580, 2578, 2609,
-     2621, 2623, 2637, 2662, 2680, 2677, 2712, 2721, 2730, 2756,
-     2771, 2769, 2774, 2810, 2819, 2824, 2854, 2826, 2829, 2869,
-     2880, 2880, 2902, 2921, 2934, 2943, 2968, 2979, 2992, 3015,
-     3017, 3032, 3058, 3066, 3080, 3092, 3104, 3106, 3118, 3130,
-     3145, 3149, 3173, 3174, 3193, 3218, 3270, 3196, 3232, 3267,
-     3231, 3292, 3295, 3320, 3327, 3341, 3355, 3366, 3380, 3395,
-
-     3447, 3395, 3497, 3430, 3473, 3414, 3493, 3532, 3541, 3544,
-     3551, 3575, 3576, 3595, 3598, 3600, 3630, 3644, 3649, 3605,
-     3659, 3683, 3697, 3701, 3737, 3741, 3749, 3754, 3781, 3797,
-     3798, 3830, 3844, 3856, 3844, 3885, 3888, 3891, 3926, 3935,
-     3944, 3970,  582, 2085, 2089, 2090, 2091, 2104, 2130, 2148,
-     2147, 2171,    0, 2192,    0,    0, 2193, 2197, 2215, 2208,
-        0, 2218, 2230, 2245, 2238,    0, 2248, 2273, 2277, 2283,
-     2303, 2290, 2306, 2302, 2356,    0,    0, 2365, 2359, 2360,
-     2357, 2403, 2428, 2431, 2429,    0, 2440, 2455, 2466, 2476,
-        0,    0, 2485, 2475,    0, 2511,    0, 2510, 2526, 2517,
-
-     2555, 2564, 2569, 2600,    0, 2586,    0,    0,    0, 2591,
-        0, 2601, 2626,    0, 2634, 2660, 2633, 2625, 2663,    0,
-     2681, 2686, 2675, 2678,    0, 2688, 2716,    0, 2728, 2739,
-     2740, 2738,    0, 2757, 2777, 2773, 2775, 2798,    0, 2791,
-     2795, 2834, 2868,    0,    0, 2862, 2877, 2882, 2892, 2883,
-        0,    0, 2883, 2904,    0, 2925, 2915, 2923, 2921, 2945,
-     2931, 2950, 2956, 2982,    0, 2973,    0, 2992,    0, 2982,
-      544, 3979, 3988, 4017, 4026, 4039, 4026, 4051, 4076, 4077,
-     4089, 4111, 4119, 4133, 4145, 4159, 4171, 4197, 4185, 4199,
-     4206, 4223, 4249, 4235, 4249, 4270, 4293, 4306, 4336, 4344,
-
-     4362, 4261, 4385, 4386, 4404, 4430, 4444, 4458, 4472, 4486,
-     4502, 4528, 4519, 4545, 4553, 4567, 4579, 4597, 4605, 4619,
-     4631, 4649, 4657, 4656, 4684, 4692, 4685, 4727, 4700, 4736,
-     4752, 4797, 4766, 4794, 4808, 4827, 4838, 4841, 4857, 4871,
-     4896, 4904, 4909, 4911, 4925, 4951, 4963, 4968, 4976, 4998,
-     5017, 5036, 5051, 5077, 5080, 5089, 5115, 5133, 5134, 5159,
-     5168, 5187, 5209, 5212, 5238, 5250, 5241, 5263, 4970, 5294,
-     5289, 5302, 5307, 5024, 5321, 5343, 5346, 5351, 5365, 5387,
-     5392, 5396, 5422, 5441, 5438, 5464, 5483, 5497, 5494, 5525,
-     5449, 5542, 5537, 5576, 5577, 5578, 5590, 5592,  543,    0,
-
-        0, 3009,    0, 3040,    0, 3046, 3035, 3059, 3061, 3090,
-     3085, 3094, 3110, 3142,    0, 3135, 3144, 3152, 3176, 3195,
-     3210,    0, 3208, 3211, 3239, 3254, 3253, 3264, 3267, 3271,
-     3286, 3302, 3313,    0,    0, 3300, 3323, 3316, 3337, 3342,
-     3363,    0,    0, 3364,    0,    0, 3370, 3398, 3442, 3411,
-        0,    0, 3420,    0,    0, 3434, 3438, 3458, 3443, 3460,
-     3454,    0,    0, 3472, 3458, 3489, 3478, 3485,    0, 3510,
-     3512, 3519,    0, 3530, 3550, 3567, 3575,    0, 3597, 3607,
-     3640, 3624, 3639, 3640, 3660, 3662, 3663,    0, 3694, 3704,
-     3707,    0, 3695, 3717, 3718,    0,    0,  536, 5622, 5625,
-
-     5633, 5636, 5676, 5684, 5685, 5710, 5738, 5729, 5764, 5763,
-     5764, 5792, 5814, 5816, 5808, 5828, 5846, 5864, 5862, 5882,
-     5890, 5912, 5920, 5919, 5944, 5946, 5968, 5970, 5994, 5999,
-     6019, 6022, 6024, 6048, 6060, 6063, 6089, 6067, 6105, 6116,
-     6108, 6146, 6149, 6152, 6160, 6190, 6203, 6201, 6232, 6245,
-     6246, 6276, 6287, 6290, 6315, 6320, 6334, 6358, 6376, 6367,
-     6407, 6411, 6419, 6434, 6459, 6460, 6488, 6489, 6513, 6514,
-     6527, 6539, 6542, 6567, 6581, 6568, 6593, 6596, 6622, 6635,
-     6627, 6667, 6670, 6691, 6719, 6683, 6727, 6739, 6752, 6744,
-     6780, 6778, 6799, 6825, 6822, 6843,  526, 3718,    0, 3748,
-
-        0, 3753, 3765, 3751, 3753,    0, 3765,    0, 3790, 3801,
-     3812, 3805, 3799,    0, 3822,    0, 3822,    0, 3819,    0,
-        0, 3862,    0, 3875, 3873, 3892, 3903,    0,    0,    0,
-        0,    0,    0, 3903, 3930, 3942,    0,    0, 3932,    0,
-     3948,    0, 3968,    0, 3972, 3992, 4001, 4031, 4018, 4032,
-        0, 4044, 4049, 4061, 4077,    0, 4091,    0, 4094,    0,
-     4107, 4109, 4115, 4110, 4136,    0,    0,    0,    0, 4134,
-     4144,  525, 6860, 6865, 6867, 6881, 6897, 6910, 6919, 6935,
-     6944, 6953, 6977, 6986, 6995, 7026, 7030, 7039, 7070, 7081,
-     7084, 7112, 7125, 7126, 7156, 7167, 7169, 7178, 7203, 7212,
-
-     7214, 7221, 7256, 7257, 7265, 7298, 7301, 7307, 7342, 7350,
-     7369, 7364, 7394, 7396, 7410, 7419, 7438, 7452, 7471, 7480,
-     7500, 7509, 7524, 7538, 7516, 7559, 7565, 7589, 7603, 7612,
-     7631, 7645, 7654, 7673, 7687, 7701, 7720, 7743, 7744, 7774,
-     7785, 7788, 7804, 7818, 7834, 7837,  529,    0,    0,    0,
-        0, 4157,    0,    0,  436, 4161, 4177,    0,    0, 4177,
-     4196, 4219,    0,    0,    0, 4258,    0,    0, 4276, 4280,
-        0,    0, 4284, 4299, 4293, 4301,    0,    0, 4319, 4304,
-     4316,    0,    0, 4320,    0, 4325, 4333, 4341, 4361, 4364,
-        0,    0,  527, 7848, 7872, 7878, 7881, 7901, 7916, 7925,
-
-     7955, 7940, 7970, 7969, 7984, 7999, 8008, 8038, 8033, 8052,
-     8074, 8013, 8054, 8084, 8108, 8095, 8131, 8139, 8150, 8151,
-     8156, 8185, 8188, 8199, 8218, 8232, 8251, 8262, 8281, 8292,
-     8295, 8311, 8335, 8341, 8358, 8380, 8388, 8393,  526, 4361,
-     4434,    0, 4360,    0,    0,    0, 4377, 4374,    0,    0,
-     4384, 4398, 4412, 4415,    0,    0,    0, 4405, 4419, 4429,
-        0, 4436,  524, 8418, 4781, 8406, 8432, 8444, 8446, 8468,
-     8480, 8498, 8506, 8524, 8546, 8551, 8555, 8568, 8590, 8598,
-     8603, 8612, 8642, 8644, 8647, 8656,  514,  438, 4433, 4446,
-        0,    0, 4434,    0,    0, 4469,    0,    0, 4477,    0,
-
-      506, 8710, 4493, 8688, 8696, 8697, 8731, 8739, 8742, 8745,
-     8775, 8783, 8795, 8800,  470, 4558, 4499,    0,    0,    0,
-     4522,  468, 4698, 4536, 8803, 8808, 8844, 8842,  465, 4563,
-     8955,    0,  418, 4565,    0, 8851,  418, 4572,  390, 4578,
-      388, 4583,  386, 4591,  347, 4609,  343, 4617,  338, 4628,
-      335, 4636,  334, 4653,  332, 4679,  303, 8955,  293,    0,
-      299,  286,  248,  243, 8955,    0, 8955, 8924, 8929,  201,
-     8934, 8939, 8944, 8949
+        0,    0,  522,  422,  378, 1467,   75,   77,  356,    0,
+     1467, 1467,   73,   72,   84,   83,  355,  344,   80,   80,
+       89,  134,  126,  179,   75,   87,  189,   76,   95,  139,
+      142,  168,  219,  181,    0,  233,  273,  316,   87,  203,
+      150,  104,  288,    0,  355,  161, 1467,  355,    0,  345,
+      302,  374,  385, 1467, 1467, 1467, 1467,    0,  142,  140,
+      224,  242,  174,  202,  294,  216,  230,    0,  290,  246,
+      306,  318,  235,  363,  383,  237,  237,  262,  260,  387,
+      307,  389,  300,  314,  315,  375,  317,  373,  381,  382,
+      381,  385,  380,    0,  395,  390,  430,  394,  428,  413,
+
+      433,  429,  440,  427,  432,  433,  428,  432,  439,  452,
+      450,    0,  453,  438,  454,  442,  461,  483,  449,  490,
+      486,  482,  487,  494,  497,  490,  499,  483,  501,  501,
+      521,  503,  497,  495,  539,  540,  512,  508,  535,  541,
+      543,  530,  550, 1467,    0, 1467, 1467,    0,  317,  600,
+        0,  549,    0,  550,  544,    0,  556,    0,  543,  562,
+      576,  591,  589,  590,  600,  586,  585,  594,  588,  584,
+      609,  592,  594,  608,  595,  603,  607,  616,  640,  616,
+      616,  602,  621,  608,  620,  638,    0,  653,  650,  653,
+      638,  646,  641,  642,  657,  662,  652,  660,  653,  655,
+
+      666,  648,  662,  662,  654,  657,  665,  662,  673,  674,
+      694,  702,  687,  695,    0,  690,  706,  703,  709,  713,
+      708,  709,  697,  699,  699,    0,  720,  710,  705,  706,
+      722,  723,  711,  752,  716,  755,  719,  726,  749,  757,
+      762,  744,  757,  754,  748,  763,  754,  765,    0,  755,
+      751,  759,  764,  757,  758,  767,  765,  762,  769,  779,
+        0,  772,  802,  772,  800,  797,  817,  805,  799,  818,
+      799,  803,  810,  817,  808,  296,  809,  811,  805,  806,
+      814,  819,  830,  822,  832,    0,  837,    0,    0,  839,
+      828,  852,  848,    0,  849,  851,  866,  852,    0,  861,
+
+      861,  854,  856,  876,  860,  876,  871,  869,    0,    0,
+      878,  867,  868,  864,  866,  886,  888,  885,    0,  871,
+      877,  885,  894,    0,    0,  914,  904,    0,  909,    0,
+      905,  920,  908,  903,  910,  911,  923,    0,  919,    0,
+        0,    0,  912,    0,  921,  929,    0,  930,  917,  930,
+      921,  931,    0,  940,  939,  927,  928,    0,  935,  940,
+        0,  964,  973,  976,  973,    0,  961,  967,  963,  962,
+      981,    0,  971,  971,  983,  982,    0,    0,  976,  984,
+      981,  986,  977,    0,    0,  974,  975,    0,  992,  976,
+      984,  978,  999,  982,  996, 1018, 1020,    0, 1010,    0,
+
+     1027,    0, 1014,  275,    0,    0, 1008,    0, 1030,    0,
+     1031, 1017, 1037, 1035, 1037, 1027, 1022, 1028, 1039,    0,
+     1031, 1037, 1032, 1047, 1037, 1046,    0, 1043, 1033, 1040,
+     1051, 1048, 1072, 1062, 1065, 1067, 1078, 1085,    0,    0,
+     1066, 1083, 1071, 1080, 1074, 1087,    0,    0, 1075,    0,
+        0, 1076, 1092, 1079, 1087,    0,    0, 1096,    0,    0,
+     1097, 1084, 1104, 1086, 1099, 1088,    0,    0, 1105, 1091,
+     1127, 1118, 1121,    0, 1135, 1136, 1133,    0, 1142, 1143,
+     1141, 1126,    0, 1138, 1144, 1148, 1131, 1133, 1132, 1152,
+     1153, 1141,    0, 1151, 1153, 1154,    0, 1141, 1160, 1161,
+
+        0,    0,  267, 1159,    0, 1151,    0, 1171, 1185, 1173,
+     1175,    0, 1183,    0, 1176, 1184, 1195, 1187, 1180,    0,
+     1199,    0, 1199,    0, 1189,    0,    0, 1199,    0, 1191,
+     1186, 1198, 1194,    0,    0,    0,    0,    0,    0, 1191,
+     1205, 1210,    0,    0, 1194,    0, 1202,    0, 1214,    0,
+     1196, 1209, 1210, 1234, 1219, 1233,    0, 1245, 1246, 1231,
+     1232,    0, 1238,    0, 1241,    0, 1253, 1254, 1253, 1237,
+     1254,    0,    0,    0,    0, 1241, 1248,  269,    0,    0,
+        0,    0, 1256,    0,    0,  175, 1257, 1262,    0,    0,
+     1259, 1245, 1260,    0,    0,    0, 1254,    0,    0, 1266,
+
+     1258,    0,    0, 1254, 1268, 1278, 1284,    0,    0, 1298,
+     1282, 1292,    0,    0, 1284,    0, 1287, 1293, 1287, 1303,
+     1304,    0,    0,  269, 1292, 1331,    0, 1293,    0,    0,
+        0, 1307, 1295,    0,    0, 1298, 1303, 1311, 1314,    0,
+        0,    0, 1296, 1307, 1315,    0, 1322,  263,  183, 1312,
+     1333,    0,    0, 1320,    0,    0, 1328,    0,    0, 1337,
+        0,  257, 1375, 1334,    0,    0,    0, 1344,  253, 1358,
+     1467,    0,  221, 1342,  221, 1336,  216, 1353,  211, 1349,
+      205, 1357,  172, 1467,  173,  157, 1467, 1467, 1446, 1451,
+      125, 1456, 1461
+
     } ;
 
-static const flex_int16_t yy_def[1375] =
+static const flex_int16_t yy_def[694] =
     {   0,
-     1367,    1, 1368, 1368, 1367,    5, 1367, 1367, 1367, 1367,
-     1367, 1369, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1367, 1371, 1367, 1372, 1372, 1367,
-     1372, 1373, 1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372,
-     1374, 1374,   62,   62,   62,   63,   65,   62,   65,   62,
-       62,   62,   62,   63,   63,   63,   62,   62,   62,   62,
-       65,   62,   62,   62, 1372, 1367, 1367, 1369, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1367, 1371, 1367, 1372, 1372, 1372, 1373,
-     1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372,   62,
-
-       62,   62,   65,   65,   65,   65,   65,   65,   62,   62,
-       65,   65,   65,   62,   62,   62,   65,   65,   65,   62,
-       65,   65,   65,   62,   65,   65,   62,   65,   62,   65,
-       62,   62,   65,   65,   65,   65,   62,   62,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       62,   62,   65,   62,   62,   62,   63,   62,   62,   62,
-       65,   62,   62,   62,   62, 1372, 1367, 1367, 1367, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1372, 1372, 1372,   62,   62,   62,
-       62,   65,   65,   65,   65,   62,   62,   62,   62,   65,
-       65,   62,   62,   62,   62,   62,   62,   62,   65,   65,
-       62,   65,   65,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   65,   65,   65,
-       65,   62,   62,   65,   62,   62,   65,   65,   65,   65,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   65,   65,   65,   62,   62,   62,
-
-       62,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65, 1367, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1372,   65,   65,   62,   62,   62,   65,   62,   65,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-
-       65,   62,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   65,   65,   65,   62,   62,   65,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   65,   65,   65,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   65,   65,
-       62,   62,   62,   65,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   62,   62,   62,   62,   65, 1367, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1372,   65,   65,
-
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   65,
-       65,   62,   62,   62,   65,   62,   62,   62,   65,   62,
-       62,   62,   62,   65,   62,   62,   62,   62,   62,   65,
-       62,   62,   62,   62,   62,   62,   62,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   65,   65,   65,
-       65,   65,   65,   65,   62,   65,   65,   65,   65,   65,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   65,   62,   62,   62,
-       62,   65,   65,   65,   65,   65, 1367, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1372,   62,   62,   65,   65,   65,   62,   62,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   65,   65,
-
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   62,
-       62,   62,   62,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65, 1367, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1372,   65,   65,   65,   65,   62,   62,   62,
-
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   62,
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   62,   62,   62,   62, 1367, 1370,
-     1367, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1372,   62, 1372,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   65,   65,   62,   62,   62,
-       62,   62,   62,   62,   62,   62, 1367, 1370, 1367, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1372,   62, 1372,   62,   62,   62,   65,   65,   65,   65,
-       65,   65,   62,   62, 1367, 1367, 1367, 1370, 1370, 1370,
-     1370, 1372, 1372, 1372,   62,   62,   62,   65, 1367, 1367,
-     1367, 1370, 1372, 1372, 1372,   65, 1367, 1367, 1372, 1372,
-     1367, 1367, 1372, 1372, 1367, 1367, 1372, 1372, 1367, 1367,
-     1372, 1372, 1367, 1367, 1372, 1372, 1367, 1367, 1372, 1372,
-     1367, 1372, 1367, 1372, 1367, 1372,    0, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367
+      688,    1,  689,  689,  688,  688,  688,  688,  688,  690,
+      688,  688,  688,  688,  688,  688,  688,  688,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  688,  692,  688,  688,  688,  690,  693,  688,
+      688,  688,  688,  688,  688,  688,  688,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  688,  692,  688,  688,  693,  688,  688,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  688,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+
+      691,  691,  691,  688,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+
+      691,  691,  688,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  688,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  688,  691,  688,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  691,  691,  691,  691,  691,  691,  688,  691,  688,
+      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
+      691,  688,  688,  688,  691,  691,  691,  691,  688,  688,
+      688,  691,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,    0,  688,  688,
+      688,  688,  688
+
     } ;
 
-static const flex_int16_t yy_nxt[9032] =
+static const flex_int16_t yy_nxt[1544] =
     {   0,
-        8,    9,   10,   11,   12,   13,   14,   15,   16,   17,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
-       19,   20,   21,   22,   23,   24,   25,   26,   27,   28,
-       29,   30,   31,   32,   33,   34,   35,   36,   37,   38,
-       39,   40,   41,   42,   43,   37,   44,   37,    8,   21,
-       22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
-       32,   33,   34,   35,   36,   37,   38,   39,   40,   41,
-       42,   43,   37,   44,   37,   45,   48,   49,   50,   51,
-       52,   53,   54,   55,   56,   57,   57,   57,   57,   57,
-       57,   57,   57,   57,   57,   58,   59,   60,   61,   62,
-
-       63,   64,   65,   66,   67,   68,   69,   70,   71,   72,
-       73,   74,   75,   76,   77,   78,   79,   80,   81,   82,
-       83,   77,   84,   77,   48,   61,   62,   63,   64,   65,
-       66,   67,   68,   69,   70,   71,   72,   73,   74,   75,
-       76,   77,   78,   79,   80,   81,   82,   83,   77,   84,
-       77,   85,   86,   86,   86,   86,   89,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,   91,   90,   92,   93,
-       93,   93,   93,   93,   93,   93,   93,   93,   93,   94,
-       95,   99,  105,  100,  129,  131,  106,  109,  139,  101,
-      130,  102,  107,  132,  110,  103,  104,  140,  176,  133,
-
-      177,  111,  108,  178,  112,   98,  183,  113,   99,  105,
-      100,  129,  131,  106,  109,  139,  101,  130,  102,  107,
-      132,  110,  103,  104,  140,  176,  133,  177,  111,  108,
-      178,  112,  114,  183,  113,  119,  115,  120,  188,   86,
-      116,  141,  121,  290,  144,  142,  117,  122,  145,  118,
-      191,  143,   86,   86,  146,  181,  182,  196,  197,  114,
-     1366,  192,  119,  115,  120, 1365,  147,  116,  141,  121,
-      290,  144,  142,  117,  122,  145,  118,  123,  143,  156,
-      148,  146,  181,  182,  291,  124,  149,  150,  125,  296,
-      157,  126,  134,  147,  127, 1364,  158,  128,  135,  136,
-
-      137,  179,   86,   86,  123,  138,  156,  148, 1363,  180,
-     1362,  291,  124,  149,  150,  125,  296,  157,  126,  134,
-     1361,  127,  151,  158,  128,  135,  136,  137,  179,  297,
-      152,  159,  138,  292,  153,  160,  180,  154,  155,  161,
-      200,  293,  278,  301,  279,  162, 1359,  280, 1357,  151,
-      294, 1355,  200,  295, 1353,  302,  297,  152,  159, 1351,
-      292,  153,  160, 1349,  154,  155,  161,  200,  293,  278,
-      301,  279,  162,  163,  280,  164,  305,  294,  165,  200,
-      295,  166,  302,  167,  312,  168,  169,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  188,   86, 1347,
-
-      163, 1345,  164,  305, 1343,  165,  298,  299,  166,  303,
-      167,  312,  168,  169,  170,  310,  304,  231,  171,  200,
-      300,  172,  173,  232,  200,  311,  320,  321,  174,  200,
-      322,  175, 1341,  298,  299, 1339,  303, 1241, 1241, 1316,
-     1316,  170,  310,  304,  231,  171,  200,  300,  172,  173,
-      232,  200,  311,  320,  321,  174,  200,  322,  175,  194,
-      195,  195,  195,  195,  195,  195,  195,  195,  195,  195,
-      187,  187,  323,  187,  187,  187,  187,  187,  187,  324,
-      233,  313, 1337, 1333,  200, 1329,  314,  327,  234,  187,
-      187,  187,  200,  333,  235,  201,  200,  202,  334,  323,
-
-      325,  326,  241,  203,  200,  204,  324,  233,  313,  205,
-      206,  200,  200,  314,  327,  234,  335,  338, 1322,  200,
-      333,  235,  201,  200,  202,  334, 1315,  325,  326,  241,
-      203,  200,  204, 1301,  339, 1287,  205,  206, 1263,  200,
-     1239, 1193, 1147,  335,  338,  187,  187,  187, 1072,  187,
-      187,  187,  187,  187,  187,  997,  898,  340,  242,  243,
-      246,  339,  200,  244,  247,  187,  187,  187,  200,  245,
-      248,  341,  207,  200,  344,  336,  208,  200,  200,  200,
-      200,  337,  209,  200,  340,  242,  243,  246,  345,  200,
-      244,  247,  210,  200,  799,  200,  245,  248,  341,  207,
-
-      200,  344,  336,  208,  200,  200,  200,  200,  337,  209,
-      200,  671,  543,  200,  346,  345,  283,  284,  347,  210,
-      200,  187,  211,  200,  261,  416,  200,  352,  262,  212,
-      200,  342,  263,  200,  343,  415,  213,  353,  264,  214,
-      200,  346,  215,  283,  284,  347,  200,  288,  200,  211,
-      200,  261,  348,  200,  352,  262,  212,  200,  342,  263,
-      200,  343,  349,  213,  353,  264,  214,  350,  351,  215,
-      287,  286,  281,  200,  216,  200,  200,  285,  217,  348,
-      282,  200,  218,  354,  355,  361,  200,  200,  219,  349,
-      356,  220,  357,  362,  350,  351,  200,  200,  200,  281,
-
-      199,  216,  198,  200,  285,  217,  187,  282,  200,  218,
-      354,  355,  361,  200,  200,  219,  189,  356,  220,  357,
-      362,  363,  364,  200,  200,  200,  200,  306,  307,  308,
-      200,  309,  315,  221,  316,  222,  200,  317,  367,  358,
-      223,  359,  368,  318,  369,  224,  200,  186,  363,  364,
-      319,  184,  360,  200,  306,  307,  308,  200,  309,  315,
-      221,  316,  222,  200,  317,  367,  358,  223,  359,  368,
-      318,  369,  224,  200,  225,  365,  370,  319,  366,  360,
-      371,  200,  226,  372,  373,  227,  374,  328,  228,  329,
-      377,  229,  375,  330,  230,   97,  376,  382,   96,  385,
-
-      331,  225,  365,  370,  332,  366,   87,  371,  200,  226,
-      372,  373,  227,  374,  328,  228,  329,  377,  229,  375,
-      330,  230,  236,  376,  382,  383,  385,  331,  237,  238,
-      239,  332,  378,  389,  386,  240,  384,  379,  391,  392,
-      200, 1367,  393,  387,  394,  380,  395,  390,   47,  236,
-      381,  388,  383,  398,  399,  237,  238,  239,   47,  378,
-      389,  386,  240,  384,  379,  391,  392,  200,  249,  393,
-      387,  394,  380,  395,  390,  200,  396,  381,  388,  400,
-      398,  399,  250,  406,  403,  200, 1367,  397,  251,  252,
-     1367,  404,  407,  401,  405,  249, 1367, 1367,  412,  408,
-
-      413,  414,  200,  396, 1367,  409,  400, 1367,  544,  250,
-      406,  403,  200,  402,  397,  251,  252,  200,  404,  407,
-      401,  405,  253,  410,  200,  412,  408,  413,  414,  545,
-      254,  200,  409,  546,  255,  544,  411,  256,  257, 1367,
-      402, 1367, 1367, 1367,  200, 1367, 1367, 1367, 1367,  253,
-      410,  200, 1367, 1367, 1367,  547,  545,  254,  200, 1367,
-      546,  255,  429,  411,  256,  257,  258,  200,  200,  200,
-      418,  200,  200,  200,  200,  200,  548,  259,  200,  200,
-      200,  200,  547,  260,  549,  550,  200, 1367,  200,  429,
-      551,  200, 1367,  258,  200,  200,  200,  418,  200,  200,
-
-      200,  200,  200,  548,  259,  200,  200,  200,  200, 1367,
-      260,  549,  550,  200,  265,  200,  266,  551,  200,  267,
-      200,  552,  268,  420,  269,  200,  270,  271, 1367, 1367,
-      200,  421, 1367, 1367,  553,  200,  200, 1367, 1367, 1367,
-     1367,  265, 1367,  266, 1367, 1367,  267,  200,  552,  268,
-      420,  269,  200,  270,  271,  200,  200,  200,  421,  200,
-      200,  553,  200,  200,  272,  200,  430,  200,  273,  200,
-      419,  274,  275,  424,  200,  200,  200,  557,  276,  200,
-      558,  277,  200,  200,  559,  560,  200,  200,  200, 1367,
-     1367,  272,  200,  430,  200,  273,  200,  419,  274,  275,
-
-      424,  200,  200,  200,  557,  276,  200,  558,  277, 1367,
-     1367,  559,  560, 1367, 1367,  200,   91,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,  289,  289,  289,  289,
-      289,  289,  289,  289,  289,  289,   92,   93,   93,   93,
-       93,   93,   93,   93,   93,   93,   93,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  417,  417,  417,
-      417,  417,  417,  417,  417,  417,  417,  194,  195,  195,
-      195,  195,  195,  195,  195,  195,  195,  195,  422,  425,
-      554,  423,  555,  561,  562,  563,  564, 1367,  200,  200,
-      200,  200,  565,  566,  200,  200,  200,  556,  200,  567,
-
-      200,  200, 1367, 1367,  200,  422,  425,  554,  423,  555,
-      561,  562,  563,  564,  200,  200,  200,  200,  200,  565,
-      566,  200,  200,  200,  556,  200,  567,  200,  200,  426,
-      427,  200,  431,  568,  200,  200, 1367,  200,  569,  432,
-      433,  200,  200,  428,  200,  572,  573,  200,  574,  575,
-     1367,  200,  576,  200, 1367,  577,  426,  427,  200,  431,
-      568,  200,  200,  200,  200,  569,  432,  433, 1367,  200,
-      428,  200,  572,  573,  200,  574,  575,  438,  200,  576,
-      200,  200,  577,  578, 1367,  200,  570,  439, 1367, 1367,
-      200,  434,  435,  436, 1367,  437,  200,  200,  200, 1367,
-
-      200,  571,  579,  200,  438,  200,  200,  200,  200,  440,
-      578,  200,  452,  570,  439,  200,  200,  200,  434,  435,
-      436,  200,  437,  200,  200,  200,  441,  200,  571,  579,
-      200,  442,  200,  200,  200,  580,  440, 1367,  200,  452,
-     1367,  581,  200,  200,  200, 1367, 1367, 1367,  200,  582,
-     1367, 1367, 1367,  441,  583, 1367,  584,  585,  442,  443,
-     1367,  444,  580, 1367,  445,  586,  587,  200,  581,  200,
-      446, 1367,  200,  448,  449, 1367,  582,  447,  200,  200,
-      200,  583,  200,  584,  585,  200,  443,  450,  444,  588,
-      200,  445,  586,  587,  200,  589,  200,  446,  200,  200,
-
-      448,  449,  200,  590,  447,  200,  200,  200,  451,  200,
-      591,  592,  200,  593,  450,  455,  588,  200,  200, 1367,
-     1367,  594,  589,  200,  200,  200,  200,  200, 1367,  200,
-      590,  200,  461,  463,  200,  451,  200,  591,  592,  200,
-      593,  595,  455,  200,  200,  200,  453,  454,  594, 1367,
-      200,  200,  596,  200,  200,  200, 1367,  200,  200,  461,
-      463,  200,  200,  200,  597,  598,  200,  200,  595,  599,
-      200,  200,  600,  453,  454,  601,  462,  602,  200,  596,
-     1367, 1367,  200,  200,  200, 1367, 1367, 1367,  200,  200,
-     1367,  597,  598, 1367,  200,  456,  599,  457, 1367,  600,
-
-     1367,  458,  601,  462,  602,  200,  603,  200,  459,  200,
-      200,  606,  460,  200,  464,  200,  200,  200, 1367,  466,
-      465,  200,  456,  607,  457,  467,  200,  200,  458,  200,
-     1367,  608,  200,  603,  200,  459,  200,  200,  606,  460,
-      200,  464,  609,  200,  200,  200,  466,  465,  200,  200,
-      607, 1367,  467,  200,  200,  468,  200,  200,  608,  200,
-      610,  200,  611,  604,  200,  200,  614,  469,  200,  609,
-      200,  615,  200,  605,  616,  470,  200,  200,  471,  200,
-      200,  472,  468, 1367,  200, 1367,  200,  610,  200,  611,
-      604,  200,  200,  614,  469,  200,  617,  200,  615,  618,
-
-      605,  616,  470, 1367,  200,  471,  200,  200,  472,  200,
-      200,  200,  200,  200,  619,  612,  200,  200,  200,  473,
-      200,  200,  200,  617,  474,  613,  618, 1367, 1367, 1367,
-      200, 1367, 1367, 1367, 1367,  620,  200,  200,  200,  200,
-      200,  619,  612,  200,  200,  621,  473,  200,  200,  200,
-      200,  474,  613,  622,  200,  200,  200,  200,  480,  481,
-      200,  475,  620,  200,  623,  200,  624,  200,  200,  625,
-      200, 1367,  621, 1367,  200,  200, 1367,  200,  200, 1367,
-      622,  200,  200,  200,  200,  480,  481,  200,  475, 1367,
-      200,  623,  200,  624,  482,  200,  625,  200,  476,  200,
-
-      483,  200,  200,  200,  626,  200,  200,  628,  477,  200,
-      200,  200,  200,  478,  479, 1367,  489,  200,  200,  200,
-     1367,  482,  200,  627, 1367,  476,  200,  483, 1367, 1367,
-      200,  626, 1367,  200,  628,  477,  200,  200,  500,  200,
-      478,  479,  200,  489,  200,  200,  200,  200,  200,  200,
-      627,  200,  200,  484,  490,  485,  503,  200,  200,  200,
-      504,  631,  632, 1367,  200,  500,  200,  200, 1367,  200,
-     1367, 1367,  633, 1367,  200,  200,  200,  629,  200,  200,
-      484,  490,  485,  503,  200,  200,  200,  504,  631,  632,
-      630,  200, 1367,  200,  200,  486,  634,  487,  200,  633,
-
-      491,  635,  636,  200,  629,  200,  200,  200,  488,  200,
-      200,  637,  638,  200,  200,  492,  639,  630,  200,  200,
-     1367,  640,  486,  634,  487,  200,  641,  491,  635,  636,
-     1367, 1367,  200,  200,  200,  488,  200,  200,  637,  638,
-      200,  200,  492,  639, 1367,  200,  200,  200,  640,  200,
-      495, 1367,  200,  641,  200,  493, 1367,  200,  494,  200,
-      496, 1367,  200,  200,  642,  200,  643, 1367,  644, 1367,
-      200,  200, 1367,  200,  200,  200,  200,  495,  200,  200,
-     1367,  200,  493,  200,  200,  494,  200,  496,  497,  200,
-      200,  642,  200,  643,  200,  644,  200,  200,  200,  498,
-
-      200,  200,  200, 1367,  645,  200,  200,  200, 1367,  200,
-      200, 1367, 1367,  646,  200,  497,  647,  648, 1367,  200,
-      649,  200, 1367,  200, 1367,  650,  498,  651,  200, 1367,
-      200,  645,  200,  200,  200,  200,  200,  200,  499,  200,
-      646,  200,  200,  647,  648,  200,  200,  649,  501,  200,
-     1367,  505,  650,  652,  651,  200,  200,  200,  653,  200,
-     1367,  200,  200,  502,  200,  499,  200,  200,  654,  200,
-      657,  200,  200, 1367,  510,  501,  200,  200,  505,  200,
-      652,  200,  200,  200,  660,  653,  200,  200,  200, 1367,
-      502,  200, 1367, 1367,  200,  654, 1367,  657,  200, 1367,
-
-      655,  510, 1367, 1367,  200,  511,  200,  200,  200,  656,
-     1367,  660,  200,  200,  200,  506,  512,  200,  200,  513,
-      507,  661,  662,  200, 1367,  200,  200,  655,  508,  658,
-      200,  659,  511,  509,  200,  200,  656,  517,  200,  200,
-      663,  200,  506,  512,  200,  200,  513,  507,  661,  662,
-      200,  518,  200,  200, 1367,  508,  658,  200,  659,  200,
-      509,  200,  200,  519,  517,  200,  514,  663,  200,  200,
-      664,  665,  200,  666,  669,  515, 1367,  200,  518,  200,
-     1367,  520,  200,  516, 1367,  200,  200,  200,  200,  200,
-      519, 1367, 1367,  514, 1367,  200,  200,  664,  665,  667,
-
-      666,  669,  515,  668,  200,  200,  200,  200,  520,  200,
-      516,  200,  200,  670,  200,  522,  200,  200,  523,  200,
-      521,  200,  200,  200,  800,  200,  667,  200,  801,  200,
-      668,  200,  200, 1367,  200, 1367,  802,  803,  200,  200,
-      670,  200,  522,  804,  200,  523,  200,  521,  200,  526,
-      200,  800,  200,  200,  200,  801,  200, 1367,  200,  200,
-      200,  524,  200,  802,  803,  805,  200,  200,  200,  200,
-      804,  200,  525,  200,  806,  200,  526,  200, 1367,  527,
-      200,  200,  807,  200,  528, 1367,  200,  200,  524,  200,
-     1367,  200,  805,  200,  200, 1367,  200,  808,  200,  525,
-
-      200,  806,  200,  200,  200,  529,  527,  535,  200,  807,
-      200,  528,  200,  200,  809,  810,  534,  200,  200,  200,
-      200,  200,  200,  200,  808,  530, 1367,  200, 1367, 1367,
-      200,  811,  529, 1367,  535, 1367, 1367,  200, 1367,  200,
-      200,  809,  810,  534,  200,  812,  200,  813,  200,  200,
-      200, 1367,  530,  531,  200,  536,  200,  200,  811,  814,
-      532,  537,  200,  533,  200,  538,  200,  200, 1367,  200,
-      815,  816,  812, 1367,  813,  200,  200, 1367,  539,  817,
-      531,  818,  536,  200,  200,  200,  814,  532,  537,  200,
-      533,  540,  538,  200,  200,  200,  200,  815,  816, 1367,
-
-      200,  200,  200,  200,  200,  539,  817,  819,  818,  542,
-      200,  200,  200,  200,  674,  541,  200,  200,  540,  820,
-      200,  200,  200,  200,  821,  822,  200,  200,  200,  823,
-      824,  200,  825,  200,  819, 1367,  542,  200,  200, 1367,
-      200,  674,  541,  200,  200, 1367,  820,  200,  200, 1367,
-      200,  821,  822,  200, 1367, 1367,  823,  824, 1367,  825,
-      200,  289,  289,  289,  289,  289,  289,  289,  289,  289,
-      289,  417,  417,  417,  417,  417,  417,  417,  417,  417,
-      417,  200,  672,  200,  673,  200,  200,  200,  200,  826,
-      827,  200,  200,  200,  200, 1367,  828,  829, 1367,  830,
-
-     1367,  200,  200,  200,  200, 1367, 1367, 1367,  200,  672,
-      200,  673,  200,  200,  200,  200,  826,  827,  200,  200,
-      200,  200,  675,  828,  829,  200,  830,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200,  200, 1367,  831,  200,  200, 1367,  676,  675,
-      832, 1367,  200,  833,  200,  834, 1367, 1367,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      677,  831,  200,  200,  200,  676,  200,  832,  200,  200,
-      833,  835,  834,  679,  200,  200,  200, 1367,  680,  200,
-      200,  836,  678,  200,  200,  200,  837,  677,  838,  200,
-
-      200,  200,  681,  200,  200,  200,  200,  839,  835,  200,
-      679,  200,  840,  200,  200,  680,  200,  200,  836,  678,
-      200,  200,  200,  837,  200,  838,  200,  200, 1367,  681,
-      200,  200, 1367,  685,  839, 1367,  200, 1367, 1367,  840,
-      200,  200,  682, 1367,  683,  200,  841,  200,  200,  200,
-      842,  200,  843, 1367,  200,  200,  844,  200,  200,  684,
-      685,  686,  200, 1367,  200,  200,  687,  200,  200,  682,
-      200,  683,  200,  841,  200,  200,  200,  842,  200,  843,
-      200,  200,  200,  844, 1367,  200,  684, 1367,  686,  200,
-      689,  200,  200,  687,  200,  200, 1367,  200,  200, 1367,
-
-      845,  200,  690,  846,  200,  200,  200,  200,  847,  688,
-      200,  200, 1367,  200,  200, 1367,  200,  689,  691,  850,
-     1367,  200, 1367,  200, 1367,  200,  200,  845,  848,  690,
-      846,  200,  851,  200,  852,  847,  688,  200,  200,  849,
-      200,  200,  200,  200,  200,  691,  850,  693,  692,  200,
-      200,  200,  853,  200,  200,  848,  200,  200,  200,  851,
-      854,  852,  857,  694,  858, 1367,  849,  200,  200,  200,
-      695,  200,  200, 1367,  693,  692,  200,  200,  200,  853,
-     1367,  200,  200,  200,  200,  200, 1367,  854,  200,  857,
-      694,  858,  696,  859,  200,  200, 1367,  695,  200,  200,
-
-      855,  856,  697,  698,  200,  860,  200,  200,  200,  200,
-      200, 1367,  861,  200,  862,  200,  200,  863,  699,  696,
-      859, 1367,  864,  200, 1367,  200,  200,  855,  856,  697,
-      698, 1367,  860,  200,  200,  200,  700,  200,  200,  861,
-      200,  862,  200,  200,  863,  699,  865,  701,  200,  864,
-      200,  200, 1367,  200,  866, 1367,  200,  200,  200, 1367,
-      200,  867,  868,  700,  869,  200,  200,  200, 1367,  200,
-     1367,  702, 1367,  865,  701,  200,  200, 1367,  200,  703,
-     1367,  866,  200,  200,  200,  200,  200,  200,  867,  868,
-     1367,  869,  200,  200,  200,  705,  870,  200,  702,  200,
-
-      200,  200,  200,  200,  200,  200,  703,  200,  704,  200,
-      706,  871,  872,  200, 1367,  200,  873,  200, 1367,  200,
-      200,  874,  705,  870,  200,  875,  200,  200,  200,  200,
-      876,  200,  200, 1367,  200,  704,  200,  706,  871,  872,
-      200,  707,  200,  873,  200,  200,  200,  200,  874,  200,
-      708, 1367,  875, 1367,  200,  200,  200,  876,  877,  200,
-      200,  200,  711,  200,  200,  200,  710,  200,  707,  200,
-      200,  200,  200,  200,  200, 1367,  200,  708,  709, 1367,
-      200,  200,  200,  200,  200,  877,  200,  200,  200,  711,
-      200,  200,  200,  710,  878,  879,  200,  200,  200, 1367,
-
-      200,  200,  200,  880,  200,  709,  714,  200,  712,  200,
-      200,  200,  881,  200,  200,  200,  200,  200,  882,  883,
-      713,  878,  879,  884,  715,  200,  200,  200,  200,  200,
-      880,  200,  200,  714, 1367,  712,  200,  200,  200,  881,
-      200,  200,  200,  200,  885,  882,  883,  713,  200,  886,
-      884,  715,  200,  200,  716,  200,  200,  887,  888,  200,
-      717,  200, 1367,  889,  200,  200,  200,  890,  718,  200,
-      200,  885,  891,  200, 1367,  200,  886,  719,  892,  200,
-      200,  716,  893,  200,  887,  888, 1367,  717,  200,  200,
-      889,  200, 1367,  200,  890,  718,  200,  200, 1367,  891,
-
-      200,  720,  721,  200,  719,  892,  200,  200,  200,  893,
-     1367,  894,  200,  200,  200,  895,  200, 1367,  896,  200,
-     1367, 1367,  897, 1367,  200,  200, 1367,  200,  720,  721,
-      200, 1367,  200, 1367,  722,  200, 1367,  200,  894,  200,
-      200,  200,  895,  200,  723,  896,  200,  724,  200,  897,
-      200,  200,  200,  200,  200,  200,  998, 1367,  200,  200,
-      200,  722,  200,  200,  200, 1367,  999, 1367,  200, 1367,
-      200,  723, 1000,  725,  724,  200, 1001,  200,  200, 1367,
-      200, 1002,  200,  998,  200,  200, 1003,  200,  200,  200,
-      200, 1367,  200,  999,  200,  200,  200,  726,  727, 1000,
-
-      725, 1367,  200, 1001,  200,  200,  200, 1367, 1002, 1367,
-      200,  200,  200, 1003, 1004,  200,  728, 1367,  729,  200,
-     1005,  200,  200,  200,  726,  727,  200, 1367,  200,  200,
-      730,  200,  731,  200,  200, 1006,  200,  200,  200,  200,
-      200, 1004,  200,  728,  732,  729, 1007, 1005,  200,  200,
-      200, 1367,  200,  200,  733,  200,  200,  730, 1367,  731,
-      200,  200, 1006,  200,  200,  200,  200,  200, 1008,  200,
-     1009,  732,  734, 1007, 1010,  200,  200,  200,  200,  200,
-      735,  733,  200,  200,  200,  200, 1367,  200, 1011,  200,
-      200,  200, 1367,  200,  200, 1008, 1367, 1009, 1012,  734,
-
-      737, 1010, 1367,  200,  200,  200,  200,  735,  200,  200,
-      200,  200,  200,  200,  736, 1011,  200,  200,  200,  200,
-      200,  200,  200,  738,  742, 1012,  200,  737, 1013,  200,
-     1367,  200,  200,  200, 1367,  200, 1014,  200, 1015,  200,
-      200,  736,  200,  739,  200,  200,  200,  200,  200,  200,
-      738,  742, 1016,  200,  200, 1013,  200,  200,  200,  200,
-      743,  200,  200, 1014,  200, 1015,  200,  200,  200,  200,
-      739,  200,  745, 1367, 1017,  200, 1367,  200,  200, 1016,
-     1018,  200, 1367, 1019,  200,  200, 1367,  743,  200,  200,
-     1020,  200,  740,  200,  200,  200,  200,  200, 1367,  745,
-
-      200, 1017,  741,  200,  200,  200,  200, 1018, 1021,  744,
-     1019, 1367, 1022,  200, 1367, 1367,  200, 1020,  200,  740,
-      200,  200,  200,  200,  200,  200, 1023,  200,  200,  741,
-      200,  200, 1024,  200,  746, 1021,  744, 1025,  200, 1022,
-      200,  200,  747,  200, 1026,  200,  200, 1367,  200,  200,
-      200, 1027,  200, 1023, 1367,  200,  200, 1028,  200, 1024,
-      748,  746,  200, 1367, 1025,  200,  200,  200,  200,  747,
-     1029, 1026,  200,  200,  200, 1367,  200,  200, 1027, 1367,
-      749,  200, 1030,  200, 1028, 1367,  200,  748,  200,  200,
-      200, 1031,  751,  200,  200,  750,  200, 1029, 1367,  200,
-
-      200,  200,  200,  200, 1367, 1032,  752,  749,  200, 1030,
-      200, 1033,  200,  200, 1367,  200,  200,  200, 1031,  751,
-     1367,  200,  750,  200, 1034,  200,  200,  200,  200,  200,
-      756,  200, 1032,  752,  753,  200, 1367,  200, 1033,  200,
-      200,  200, 1367,  200, 1037, 1038, 1367,  761,  200,  200,
-     1367, 1034,  200,  200,  200,  200, 1367,  756,  200,  200,
-     1039,  753,  200,  200,  759,  200, 1367,  200,  200,  754,
-      200, 1037, 1038,  200,  761,  200,  200,  200, 1040, 1367,
-     1041,  200, 1035,  200, 1042, 1036,  200, 1039,  755, 1043,
-      200,  759,  200,  200, 1367, 1044,  754,  200, 1045, 1046,
-
-      200,  760,  200, 1367,  200, 1040,  200, 1041,  200, 1035,
-      200, 1042, 1036,  200, 1047,  755, 1043, 1048,  200,  762,
-      200,  757, 1044,  200, 1049, 1045, 1046, 1367,  760,  200,
-      200, 1367,  200,  200,  758,  200, 1050,  200, 1051,  200,
-      200, 1047,  200, 1367, 1048,  200,  762, 1367,  757, 1052,
-      200, 1049, 1053, 1367,  763, 1367,  200,  200,  200,  200,
-     1367,  758,  200, 1050,  200, 1051,  200,  200,  200,  200,
-      200,  200, 1054,  765,  200, 1367, 1052,  200,  200, 1053,
-      200,  763,  764, 1367,  766,  200,  200,  200, 1367,  200,
-      200,  200, 1055, 1367,  200,  200,  200,  200,  200, 1054,
-
-      765,  200,  768, 1367,  200,  200,  200,  200,  200,  764,
-      200,  766,  200,  200,  200,  767, 1056,  200,  200, 1055,
-      200,  200,  200,  200,  770,  200,  200, 1057,  200,  768,
-      200,  769, 1058,  200,  200,  200,  200,  200,  774,  200,
-      200,  200,  767, 1056,  200,  200,  200,  200,  200,  200,
-      200,  770,  200,  200, 1057,  200,  200,  200,  769, 1058,
-      200,  200, 1059,  200, 1060,  774,  200,  200,  200,  771,
-      200,  200,  200,  200,  200,  200,  200,  200, 1061,  200,
-      200, 1062, 1063,  200, 1064,  200,  773,  200,  772, 1059,
-      200, 1060,  200,  200,  200,  200,  771,  200, 1065,  200,
-
-      775,  200,  200,  200,  200, 1061,  200,  200, 1062, 1063,
-     1367, 1064,  200,  773, 1367,  772,  200,  200,  200,  200,
-     1066,  200,  200,  200,  776, 1065,  200,  775,  200, 1067,
-      777,  200,  200, 1068,  200, 1069,  200,  200,  778, 1070,
-     1071,  200,  200,  200, 1148,  200,  200, 1066, 1367, 1367,
-      200,  776, 1367, 1367, 1367,  200, 1067,  777, 1367,  200,
-     1068,  200, 1069,  200,  200,  778, 1070, 1071,  200,  200,
-      200, 1148,  200,  200,  200,  781,  780,  200,  779,  200,
-      200,  200,  200, 1149,  200,  200,  200, 1367, 1150, 1367,
-      200, 1151, 1152, 1153, 1367,  200, 1367,  200, 1154,  200,
-
-      200,  200,  781,  780,  200,  779,  200,  200,  200,  200,
-     1149,  200,  200,  200,  200, 1150,  782,  200, 1151, 1152,
-     1153,  200,  200,  783,  200, 1154,  200,  200,  200, 1367,
-      200, 1155,  784, 1367,  785, 1156, 1157,  200, 1158, 1367,
-     1159,  200,  200,  782,  200, 1160, 1161, 1367,  200, 1367,
-      783,  200, 1367,  200, 1162,  200,  200,  200, 1155,  784,
-      200,  785, 1156, 1157,  200, 1158,  786, 1159,  787,  200,
-      200,  200, 1160, 1161,  200, 1367,  200,  200,  789,  790,
-      788, 1162,  200,  200,  200, 1367,  200,  200, 1163,  200,
-      200, 1367,  200,  786, 1367,  787, 1367,  200, 1367, 1367,
-
-     1367,  200,  200,  200,  200,  789,  790,  788, 1367,  200,
-     1164,  200,  792,  200, 1165, 1163,  200,  200,  200,  200,
-      200,  200, 1166,  200,  200,  200,  200,  791,  200,  200,
-      200,  200, 1367,  200, 1367,  793,  200, 1164, 1167,  792,
-     1367, 1165, 1168, 1367, 1367,  200, 1367,  200,  200, 1166,
-      200,  200,  200,  200,  791,  200, 1169,  200,  200,  200,
-      200,  200,  793,  200, 1170, 1167,  200,  794,  200, 1168,
-      795,  200, 1171,  797,  796,  200, 1367,  200, 1367,  200,
-      200, 1172, 1367, 1169,  200, 1367,  200, 1367,  200,  200,
-     1173, 1170, 1367,  200,  794,  200, 1367,  795,  200, 1171,
-
-      797,  796,  200,  200,  200,  200,  200,  200, 1172,  798,
-      200,  200,  200, 1174,  200,  200,  200, 1173,  899,  200,
-     1367,  200, 1175,  200,  200, 1367, 1367,  900,  200, 1367,
-      200, 1176,  200,  200, 1367, 1367,  798,  200, 1367,  200,
-     1174,  200,  200,  200, 1367,  899,  200,  200,  200, 1175,
-      200,  200,  200,  200,  900,  200,  200, 1177, 1176,  200,
-      200,  904,  200,  901, 1178,  200,  200, 1179, 1180,  200,
-      200,  200,  902, 1181,  200,  200, 1367,  905,  903,  200,
-      200,  200, 1367,  200, 1177,  200,  200,  200,  904,  200,
-      901, 1178,  200,  200, 1179, 1180,  200,  200,  200,  902,
-
-     1181, 1182,  200,  907,  905,  903, 1367,  200,  200,  200,
-     1367,  906,  200,  200,  200,  200,  200, 1183, 1367,  200,
-     1367,  200, 1367,  200,  200,  200, 1184, 1185, 1182, 1186,
-      907, 1187, 1367,  908,  200,  200,  200,  200,  906, 1188,
-      200,  200,  200,  200, 1183,  200,  200,  200,  200,  200,
-      200, 1189,  200, 1184, 1185,  200, 1186,  200, 1187,  200,
-      908, 1190,  200,  200,  200,  200, 1188,  909,  200,  200,
-     1367,  200,  200, 1191,  200,  200,  200, 1192, 1189,  200,
-     1367,  200,  200, 1240,  200,  200,  200, 1242, 1190,  200,
-      200,  200,  200,  910,  909,  200,  200,  200,  200, 1243,
-
-     1191,  911,  200, 1244, 1192,  200,  200,  200,  200, 1367,
-     1240,  200,  200, 1367, 1242,  200,  200,  200,  200, 1367,
-      910,  200,  200,  200,  200,  200, 1243,  200,  911,  200,
-     1244,  200,  200,  200,  200,  200,  912, 1245,  200,  200,
-      913,  200,  200,  200,  200,  200,  914, 1246,  200,  915,
-      200,  200,  200,  200,  200, 1367,  200, 1367,  200,  200,
-      200,  200,  200,  912, 1245,  200,  200,  913,  200,  200,
-      200,  200,  200,  914, 1246,  200,  915, 1367,  200,  200,
-      200,  200,  917, 1367,  200,  200,  200,  200,  200,  200,
-      916,  924,  200, 1247,  200,  200,  200,  200,  200, 1367,
-
-     1248, 1367,  200,  200,  918,  200,  200,  200,  200,  917,
-      200,  200,  200, 1249,  200,  200,  200,  916,  924, 1367,
-     1247,  200,  200, 1250,  200, 1251,  200, 1248,  200, 1252,
-      200,  918,  200,  200,  200,  919, 1253,  200,  200,  200,
-     1249,  200,  200, 1254, 1367, 1255,  200,  920, 1256, 1367,
-     1250,  200, 1251,  200, 1367,  200, 1252, 1367,  921, 1367,
-      200, 1257,  919, 1253, 1258,  200,  200, 1259,  200,  200,
-     1254,  200, 1255,  200,  920, 1256,  200,  200,  200,  200,
-     1367,  200, 1260,  922,  200,  921,  923, 1261, 1257,  200,
-     1262, 1258, 1367, 1367, 1259,  200,  200,  200,  200, 1367,
-
-     1288, 1290,  200,  200,  200, 1291,  200,  200,  200, 1260,
-      922,  200, 1367,  923, 1261, 1292,  200, 1262,  925,  200,
-      200,  200,  200, 1293,  200,  200,  200, 1288, 1290,  200,
-      200,  200, 1291, 1294,  200, 1241, 1241,  200, 1367,  200,
-     1295, 1296, 1292, 1367,  200,  925,  200,  200,  200,  200,
-     1293, 1297,  200,  200, 1367,  926, 1298,  200,  200, 1299,
-     1294, 1300, 1367,  200,  200,  200,  200, 1295, 1296, 1317,
-      200,  200, 1318, 1289, 1319,  200,  200,  200, 1297,  200,
-     1367,  927,  926, 1298,  200, 1367, 1299, 1367, 1300,  200,
-      200,  200,  200,  200, 1367,  928, 1317,  200,  200, 1318,
-
-     1289, 1319,  200,  200,  200,  200,  200,  200,  927, 1320,
-     1367,  200,  200, 1321,  929, 1367,  200,  200,  200,  200,
-      200,  200,  928, 1367,  931,  200,  200,  930, 1367, 1324,
-      200,  200,  200, 1367,  200,  200, 1320,  200, 1367,  200,
-     1321,  929,  200, 1331,  200,  933,  200,  200,  200,  200,
-      932,  931, 1367,  200,  930,  200, 1324, 1332,  200, 1316,
-     1316,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-     1331,  200,  933,  200,  200,  200,  200,  932, 1367,  200,
-     1335,  200,  200,  200, 1332, 1338, 1367, 1340,  200,  200,
-      200,  200,  200,  200,  934,  200, 1367,  200,  200,  200,
-
-      200, 1330,  200,  935, 1367,  200,  200, 1335,  200,  936,
-      200, 1342, 1338,  200, 1340,  200,  200, 1344,  200,  937,
-      200,  934, 1367,  200,  200,  200,  200,  200, 1330, 1346,
-      935,  200,  200,  200, 1367,  200,  936, 1348, 1342, 1350,
-      200,  200,  200,  200, 1344,  200,  937, 1352, 1367,  200,
-      200,  200,  200,  938,  200,  200, 1346,  200,  200, 1367,
-      200,  200,  200, 1354, 1348,  200, 1350,  200,  200, 1367,
-      200, 1356,  200, 1367, 1352,  200,  200,  200,  200,  200,
-      938, 1358,  200,  200,  200,  200,  939,  200,  200,  200,
-     1354,  940,  200,  200,  200,  200,  200, 1367, 1356, 1323,
-
-     1316,  200,  200,  200,  200, 1367,  200, 1360, 1358, 1367,
-      200,  942,  200,  939,  200,  200,  200,  200,  940,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200,  200,  200,
-      200,  200,  941,  200, 1360,  200, 1367,  200,  942, 1367,
-      200, 1334,  200, 1367,  200,  944,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200, 1367,  200,  200,  200,  941,
-      200, 1367,  200,  200,  200, 1367,  943,  200, 1334,  200,
-     1367,  200,  944,  200, 1367,  945,  200, 1367, 1367, 1367,
-      200,  200, 1265, 1241,  200,  200, 1367,  200, 1367, 1367,
-      200,  946,  200,  943, 1367, 1367,  200,  200,  200,  200,
-
-      200,  200,  945,  200, 1367, 1367,  200, 1367,  200, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1367, 1367,  946,  200,
-     1303, 1367, 1367, 1367,  200,  947,  200,  949,  200,  200,
-      200, 1367,  200,  200,  200, 1367,  948,  200,  200,  200,
-     1367,  200,  200,  200, 1367, 1367, 1367, 1303,  200, 1367,
-     1367, 1367,  947,  200,  949, 1367,  200,  200, 1367,  200,
-      200,  200,  200,  948,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200, 1367,  200, 1367,
-      200,  200,  950,  200, 1367, 1367,  200,  200, 1367,  200,
-      200, 1367,  200, 1367,  200, 1367, 1367,  200,  200,  200,
-
-      200,  200,  200,  200,  951,  200,  200, 1367,  200,  950,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1367,  200,
-     1367, 1367,  952, 1367,  200, 1367,  200, 1367, 1367,  200,
-      200,  951,  200,  200,  200,  953, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200,  200,  200, 1367, 1367,  952,
-      200,  954,  955,  200,  956,  200,  200,  200,  200,  200,
-      200,  200,  953, 1367, 1367,  200,  200,  200, 1367,  200,
-      200,  200,  200,  200, 1367, 1367, 1367,  200,  954,  955,
-     1367,  956,  200,  200,  200,  200,  200,  200, 1367,  200,
-      957,  200,  200,  958,  200, 1367,  200,  200,  200,  200,
-
-      959, 1367,  200,  200,  200,  975,  200, 1367, 1367,  200,
-      200,  200,  200,  200,  200,  200,  200,  957,  200, 1367,
-      958,  200,  200,  200,  960,  200,  200,  959,  200,  200,
-      200,  200,  975,  200,  200, 1367,  200,  200, 1367,  200,
-     1367,  200,  200,  200,  200, 1367, 1367,  200, 1367,  200,
-     1367,  960, 1367,  200, 1367,  200,  961,  978, 1367,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1367, 1367,  200,
-      200,  200,  200, 1367,  200,  962, 1367,  200, 1367, 1367,
-      200,  200,  200,  961,  978, 1367,  200,  200, 1367,  200,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1367,  200,
-
-     1367, 1367,  962,  200,  200, 1367,  200,  200,  200,  200,
-      964,  963, 1367,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1367, 1367,  200,  200,  200,  200, 1367, 1367, 1367,
-      200, 1367, 1367,  200,  200,  200, 1367,  964,  963, 1367,
-      200,  965,  200,  200, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200,  200,  200, 1367,  966,  967, 1367, 1367,  200,
-      200,  200,  200,  200,  200, 1367, 1367, 1367,  965,  200,
-      200, 1367,  200, 1367, 1367, 1367, 1367, 1367,  200,  200,
-      200, 1367,  966,  967, 1367,  968,  200,  200,  200,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200,  200, 1367,
-
-     1367, 1367, 1367, 1367,  200,  200,  200,  200, 1367, 1367,
-     1367, 1367,  968,  200,  200, 1367,  200,  200, 1367, 1367,
-     1367,  200,  200,  200, 1367,  200,  969, 1367, 1367, 1367,
-     1367,  200,  200,  200, 1367,  200, 1367, 1367,  200,  200,
-      200,  200,  200,  970,  200,  200, 1367, 1367,  200, 1367,
-      200,  971, 1367,  969, 1367,  200, 1367, 1367,  200, 1367,
-      200, 1367,  200, 1367,  200,  200,  200,  200,  200,  200,
-      970,  200,  200,  973,  200,  200,  200,  200,  971,  972,
-      200, 1367,  200, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200, 1367,  200,  200,  200,  200,  974,  200,  200,
-
-      973,  200, 1367,  200,  200, 1367,  972,  200, 1367,  200,
-     1367,  200, 1367,  200,  200,  977,  200, 1367,  976,  200,
-      200, 1367, 1367,  200,  974,  200,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367, 1367,  977,  200, 1367,  976,  200,  979,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-      200, 1367,  981,  980,  979,  200,  200,  200,  200,  200,
-      200,  200,  200, 1367,  200, 1367, 1367,  982, 1367,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  981,
-
-      980,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200, 1367,  200,  982, 1367,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200, 1367,  200,  200,  200,
-     1367,  200,  983,  200, 1367, 1367,  984,  200,  200, 1367,
-      200,  200, 1367, 1367,  200, 1367, 1367, 1367, 1367, 1367,
-      200, 1367,  200, 1367,  200,  200,  200,  200,  200,  983,
-      200, 1367,  200,  984,  200,  985, 1367,  200,  200, 1367,
-     1367,  200, 1367,  200,  200,  992,  200, 1367,  200,  200,
-      986,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1367,  985, 1367,  200,  200, 1367,  200,  200,  987,
-
-      200,  200,  992,  200,  200,  200,  200,  986,  200,  200,
-      200, 1367,  200,  200, 1367, 1367,  200, 1367,  200,  989,
-     1367, 1367,  200,  200,  200,  988,  987,  200,  200,  200,
-      200,  200,  200, 1367,  200,  990,  200,  200, 1367,  200,
-     1367, 1367,  200,  200, 1367,  200,  989, 1367, 1367, 1367,
-      200, 1367,  988,  991,  200,  200,  200,  200,  200,  200,
-      200,  200,  990,  200,  200,  200,  200,  200,  200,  200,
-      200,  993,  200,  200, 1367, 1367, 1367, 1367,  200, 1367,
-      991, 1367, 1367,  200, 1367,  200, 1367,  200,  200, 1367,
-      200, 1367,  200, 1367,  200,  200, 1367,  200,  993,  200,
-
-      200, 1367,  200,  200,  995,  200,  200,  200,  200, 1367,
-      200, 1367,  200,  200,  200,  200,  200, 1367,  994, 1367,
-      200, 1367,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  995,  996,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1367,  200, 1367,  994, 1367,  200, 1367,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200,  200,  996,
-      200, 1367,  200,  200,  200,  200,  200,  200,  200,  200,
-      200,  200, 1367,  200, 1367, 1367,  200, 1367,  200, 1367,
-     1073,  200,  200, 1367,  200,  200, 1367,  200, 1367,  200,
-     1367, 1367,  200,  200,  200,  200,  200,  200,  200, 1367,
-
-      200, 1367, 1074,  200, 1367,  200,  200, 1073,  200, 1367,
-      200, 1075,  200, 1367,  200,  200, 1367, 1367, 1367, 1367,
-      200,  200,  200, 1367, 1367, 1367, 1367, 1367, 1367, 1074,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1075,  200,
-      200,  200,  200, 1367, 1367, 1367,  200,  200,  200,  200,
-     1367, 1076, 1367, 1367, 1078,  200,  200,  200,  200,  200,
-     1077, 1367, 1367,  200,  200,  200, 1367,  200,  200, 1367,
-     1367, 1367, 1367,  200,  200,  200, 1367, 1367, 1076, 1367,
-     1367, 1078,  200,  200,  200, 1367,  200, 1077, 1079, 1367,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1080,  200,
-
-      200,  200,  200,  200,  200, 1081, 1367, 1367,  200,  200,
-      200,  200, 1367, 1367, 1367, 1079, 1367,  200,  200, 1367,
-     1367,  200,  200,  200,  200, 1080,  200,  200, 1082, 1367,
-      200,  200, 1081, 1367, 1367,  200,  200,  200,  200, 1367,
-     1083,  200,  200, 1084,  200,  200,  200, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1082, 1367, 1367, 1085, 1367,
-      200, 1367,  200, 1367,  200,  200, 1367, 1083,  200,  200,
-     1084,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1086, 1367, 1367, 1085, 1087,  200, 1367,  200,
-      200,  200,  200, 1367,  200, 1088, 1367,  200, 1367,  200,
-
-      200,  200,  200,  200, 1367, 1367, 1367,  200, 1089, 1086,
-      200, 1367,  200, 1087, 1367, 1367,  200,  200,  200,  200,
-      200,  200, 1088, 1367,  200, 1367,  200,  200,  200,  200,
-     1367, 1367, 1367, 1367,  200, 1089,  200,  200,  200,  200,
-     1367, 1367, 1090,  200, 1367,  200,  200,  200,  200, 1367,
-      200, 1367,  200,  200, 1092,  200,  200, 1367,  200,  200,
-     1367, 1091, 1367,  200,  200,  200,  200, 1367, 1367, 1090,
-     1093, 1367,  200,  200,  200,  200, 1094,  200, 1367,  200,
-      200, 1092,  200,  200, 1367,  200,  200, 1367, 1091, 1367,
-      200,  200,  200,  200, 1095, 1367,  200, 1093,  200,  200,
-
-      200,  200, 1367, 1094,  200, 1367,  200,  200, 1367,  200,
-     1367, 1096, 1367, 1367,  200, 1367,  200,  200, 1367,  200,
-      200, 1095, 1367,  200,  200,  200, 1367,  200, 1367, 1367,
-      200,  200,  200,  200,  200, 1097, 1367, 1367, 1096, 1098,
-      200,  200, 1367,  200,  200,  200, 1100,  200,  200, 1099,
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-      200,  200, 1097, 1367, 1367,  200, 1098,  200,  200, 1367,
-      200,  200,  200, 1100,  200,  200, 1099,  200,  200,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-      200, 1102,  200,  200,  200,  200,  200,  200, 1367,  200,
-
-     1104,  200,  200, 1367, 1101,  200,  200,  200, 1367,  200,
-     1367,  200,  200,  200, 1367,  200,  200,  200, 1102,  200,
-      200,  200, 1367,  200, 1367,  200,  200, 1104, 1367,  200,
-     1103, 1101, 1367,  200,  200,  200,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1106, 1105,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1367, 1367,  200, 1103, 1367, 1367,
-     1367,  200,  200, 1367, 1367,  200, 1367,  200,  200, 1367,
-      200, 1106, 1105, 1367, 1367,  200,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-     1107,  200,  200,  200,  200,  200, 1367,  200, 1367, 1367,
-
-      200, 1367, 1367, 1367, 1367,  200,  200, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1107,  200,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200, 1367, 1109,
-      200, 1108,  200,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1110, 1367, 1367, 1111, 1367,  200, 1367, 1367,  200,
-      200, 1367,  200, 1367, 1367, 1367, 1109,  200, 1108, 1367,
-      200,  200,  200,  200, 1367, 1112,  200,  200, 1110, 1367,
-     1367, 1111,  200,  200, 1367, 1367,  200,  200,  200,  200,
-      200,  200, 1367, 1367, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200, 1112, 1367,  200, 1367, 1367, 1367, 1367,  200,
-
-     1367, 1113, 1367, 1367,  200,  200,  200,  200,  200,  200,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200, 1113, 1367,
-      200, 1367,  200, 1367, 1367,  200,  200, 1367,  200, 1367,
-     1367, 1114, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200,  200,  200,  200,  200, 1116,  200, 1367,  200,
-     1115,  200,  200, 1367, 1367,  200, 1367,  200, 1114,  200,
-     1367, 1367,  200, 1367,  200, 1367, 1367, 1367,  200,  200,
-      200, 1367,  200, 1116, 1367, 1367, 1367, 1115,  200, 1367,
-     1367,  200,  200,  200,  200, 1367,  200, 1367,  200, 1117,
-
-      200,  200,  200,  200, 1367, 1118,  200,  200, 1119,  200,
-     1367,  200,  200, 1367, 1367, 1367,  200, 1367,  200, 1367,
-      200,  200, 1367, 1367, 1367,  200, 1117,  200, 1367,  200,
-      200, 1367, 1118, 1367,  200, 1119,  200, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1120,  200,  200,  200,  200,
-     1367,  200,  200, 1367, 1367,  200,  200, 1367, 1367, 1367,
-      200, 1367, 1367, 1367,  200,  200, 1367,  200, 1367,  200,
-      200,  200, 1120,  200,  200, 1121,  200, 1367,  200,  200,
-      200, 1367,  200,  200, 1122,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200, 1367, 1123,
-
-     1367, 1367, 1121, 1367, 1367,  200,  200,  200, 1367, 1367,
-     1367, 1122,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200, 1123, 1124, 1367, 1367,
-     1367, 1367,  200,  200,  200,  200, 1367, 1367, 1367, 1125,
-     1126,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-      200,  200,  200,  200, 1124, 1367, 1367, 1127, 1367,  200,
-      200,  200,  200,  200, 1128,  200, 1125, 1126,  200,  200,
-      200,  200,  200,  200, 1367,  200,  200,  200,  200, 1367,
-      200, 1367, 1367, 1367, 1127,  200,  200,  200,  200, 1129,
-      200, 1128,  200,  200,  200,  200,  200,  200,  200,  200,
-
-      200, 1367,  200,  200,  200,  200, 1130,  200, 1367, 1131,
-     1367,  200,  200,  200,  200,  200, 1129,  200, 1367,  200,
-      200,  200,  200,  200,  200,  200, 1132,  200, 1367,  200,
-      200,  200,  200, 1130,  200, 1367, 1131, 1367,  200,  200,
-      200,  200,  200, 1367,  200, 1367,  200, 1133,  200,  200,
-      200, 1367,  200, 1132,  200, 1367,  200, 1134,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200, 1135,  200,  200,
-     1367,  200,  200, 1367, 1133,  200, 1367, 1367, 1367,  200,
-     1367,  200, 1367, 1367, 1134,  200, 1367,  200,  200,  200,
-     1367, 1367,  200, 1367, 1135,  200, 1367, 1367,  200,  200,
-
-      200, 1367,  200,  200, 1367,  200, 1136,  200,  200, 1367,
-      200, 1137,  200, 1138, 1367,  200,  200, 1367, 1140, 1367,
-     1367, 1367, 1367,  200,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200, 1136,  200, 1367,  200,  200, 1137,  200,
-     1138, 1139,  200,  200, 1367, 1140, 1367, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1141, 1367,  200, 1139,  200,
-     1143, 1367,  200, 1367,  200,  200, 1367, 1142,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200,  200,  200,
-      200,  200, 1141, 1367,  200, 1367,  200, 1143,  200,  200,
-
-     1367,  200,  200, 1367, 1142,  200,  200,  200, 1367,  200,
-      200,  200,  200,  200, 1367,  200,  200,  200, 1144, 1367,
-     1367, 1145, 1367,  200, 1367,  200,  200, 1367, 1367, 1367,
-     1367, 1367,  200,  200,  200, 1367, 1367,  200,  200,  200,
-      200, 1367, 1367,  200,  200, 1144, 1367, 1146, 1145, 1367,
-      200, 1367, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200, 1367, 1367,
-      200,  200, 1367, 1367, 1146, 1367,  200, 1367,  200, 1367,
-     1367, 1367,  200,  200,  200,  200, 1194,  200,  200,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367, 1367,
-
-      200,  200, 1195,  200, 1367,  200,  200,  200, 1367, 1367,
-      200,  200,  200, 1194,  200,  200,  200,  200,  200, 1367,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200, 1195,
-      200, 1367, 1196,  200,  200, 1367, 1197,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200,  200, 1367,  200,  200,
-     1367, 1367, 1367,  200, 1367,  200,  200,  200, 1367, 1196,
-     1198, 1367, 1367, 1197,  200,  200, 1367,  200,  200,  200,
-      200, 1367,  200,  200, 1367, 1199,  200,  200, 1367,  200,
-      200, 1367,  200,  200,  200, 1367, 1200, 1198,  200,  200,
-     1367, 1367,  200,  200, 1367,  200, 1367,  200,  200, 1367,
-
-     1367, 1367, 1199, 1367,  200, 1367,  200,  200, 1367, 1367,
-      200,  200,  200, 1200, 1367,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367,  200,  200, 1201,  200, 1202,
-      200,  200, 1367, 1367, 1367,  200, 1367,  200, 1367,  200,
-      200, 1367, 1367, 1367,  200, 1367,  200, 1367,  200,  200,
-     1203, 1367, 1367,  200, 1201,  200, 1202,  200,  200,  200,
-     1367,  200,  200, 1204, 1367,  200,  200,  200, 1367, 1367,
-      200,  200,  200, 1367,  200,  200, 1367, 1203, 1367,  200,
-     1205, 1367, 1367, 1367,  200, 1367,  200, 1367,  200, 1367,
-     1204, 1367,  200,  200, 1367, 1367, 1367,  200,  200,  200,
-
-     1367,  200,  200,  200, 1206,  200,  200, 1205, 1367, 1367,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200, 1367,  200, 1367, 1367,  200,
-      200, 1206,  200, 1367, 1367, 1367, 1207,  200, 1367, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200,  200,
-      200, 1208, 1367, 1207, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200,  200, 1367,  200, 1367, 1367, 1367, 1367,  200,
-     1367, 1367, 1367, 1367,  200,  200,  200,  200, 1208,  200,
-     1367,  200,  200,  200, 1367, 1209,  200,  200,  200,  200,
-
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200, 1367,
-     1367, 1367,  200, 1367,  200,  200,  200, 1367,  200, 1367,
-     1367, 1367, 1209,  200,  200, 1367,  200,  200,  200,  200,
-     1367,  200,  200, 1367,  200,  200,  200, 1367, 1210,  200,
-      200,  200,  200,  200, 1212,  200, 1367,  200,  200, 1367,
-      200,  200,  200, 1211,  200, 1367, 1213,  200, 1367, 1367,
-      200,  200, 1367,  200, 1367, 1210,  200,  200, 1367, 1367,
-      200, 1212,  200, 1367,  200,  200, 1367,  200, 1367,  200,
-     1211,  200, 1367, 1213,  200, 1367, 1367,  200,  200,  200,
-      200,  200,  200,  200, 1367, 1367,  200,  200,  200, 1367,
-
-      200,  200,  200, 1367, 1367,  200, 1367, 1367, 1367, 1367,
-      200, 1367, 1367, 1367, 1367, 1367,  200,  200,  200,  200,
-     1367, 1367, 1367,  200,  200,  200, 1367,  200,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1367, 1367,  200,  200, 1367, 1367,
-     1367, 1367,  200, 1367, 1367, 1367, 1367, 1367,  200, 1367,
-      200,  200, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200, 1367, 1367,  200,  200,  200, 1215,  200, 1367,  200,
-      200, 1214,  200, 1367, 1367, 1367,  200,  200, 1367, 1367,
-      200, 1216, 1367, 1367,  200,  200,  200, 1367, 1367,  200,
-
-      200, 1367,  200, 1215,  200,  200, 1367,  200, 1214,  200,
-      200, 1367, 1367,  200,  200,  200, 1367,  200, 1216, 1367,
-      200,  200,  200,  200,  200, 1367,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367, 1367, 1217,  200, 1367, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200, 1367, 1367,
-      200,  200, 1218, 1367,  200,  200,  200,  200,  200,  200,
-     1367, 1367, 1367, 1217,  200, 1367, 1367,  200,  200, 1367,
-      200,  200,  200,  200, 1219, 1367, 1367,  200,  200, 1218,
-     1367,  200,  200,  200, 1367,  200,  200,  200, 1367, 1367,
-     1367,  200,  200, 1367, 1367, 1367, 1367,  200,  200, 1367,
-
-      200, 1219, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-      200, 1220, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,
-     1221,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1222,
-      200, 1367,  200,  200, 1367,  200,  200,  200, 1220,  200,
-     1223, 1225,  200,  200,  200,  200,  200, 1221, 1367, 1367,
-      200,  200,  200,  200,  200, 1367, 1222, 1367,  200, 1367,
-      200, 1367,  200,  200,  200, 1367,  200, 1223, 1225, 1367,
-     1367,  200,  200,  200, 1224, 1367, 1367,  200,  200, 1226,
-     1367,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-
-      200,  200, 1367, 1367,  200,  200, 1367, 1367, 1367, 1367,
-      200, 1224, 1367, 1227, 1367, 1367, 1226, 1367, 1367,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200,  200, 1367,  200, 1367,  200,  200,  200, 1367,
-     1227, 1367, 1367, 1228, 1367,  200, 1367,  200,  200,  200,
-     1367,  200, 1229, 1367, 1367, 1367,  200,  200, 1367, 1367,
-     1367,  200, 1367,  200,  200,  200,  200, 1367, 1367, 1367,
-     1228,  200,  200, 1367,  200,  200,  200, 1367,  200, 1229,
-     1230, 1367, 1367, 1367,  200,  200, 1367,  200, 1367,  200,
-      200,  200, 1367,  200,  200, 1367, 1367, 1367,  200,  200,
-
-     1367, 1367, 1367,  200, 1367,  200, 1231, 1230,  200, 1367,
-     1367, 1367,  200,  200,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200, 1232, 1367, 1367,  200,  200, 1367, 1367,
-     1367, 1367,  200, 1231,  200,  200,  200, 1367, 1367, 1367,
-      200,  200, 1233, 1367, 1367,  200,  200,  200, 1367,  200,
-     1232, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,  200,
-      200,  200, 1367,  200, 1367,  200, 1367, 1234,  200, 1233,
-     1367, 1367, 1367,  200, 1367, 1367,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1235, 1367,  200,  200,  200,
-     1367, 1367,  200, 1367, 1234, 1367, 1367, 1367, 1367, 1236,
-
-     1367, 1367, 1367,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1235, 1367,  200,  200,  200, 1367,  200,  200,
-      200,  200, 1367,  200, 1367,  200, 1236, 1367,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200, 1367,  200,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-     1238,  200,  200, 1237,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200, 1367, 1367,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200, 1238, 1367,  200,
-
-     1237,  200, 1367, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200, 1367,  200, 1367, 1367,  200, 1264, 1367, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1367,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1264,  200, 1265, 1241,  200, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1266, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200,  200, 1367, 1367,  200,  200, 1367,  200,  200,
-     1367,  200, 1267, 1266, 1367,  200,  200,  200,  200,  200,
-
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1367,
-      200, 1367,  200,  200,  200,  200,  200, 1367,  200, 1267,
-      200, 1367,  200,  200, 1367, 1268,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200,  200, 1367,  200,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200, 1271, 1269,
-     1367, 1367, 1268,  200,  200, 1367,  200,  200,  200,  200,
-     1367,  200,  200,  200,  200,  200, 1270, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1271, 1269, 1367,  200,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200, 1367, 1270,  200,  200,  200, 1367,  200,  200,
-
-      200,  200, 1367, 1367,  200,  200,  200, 1367, 1367,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1273,  200,
-      200,  200, 1272, 1367, 1367,  200, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200,  200, 1367,  200,  200,  200, 1367,
-     1367,  200, 1367,  200, 1367, 1273,  200,  200, 1367, 1272,
-     1367, 1367,  200, 1367,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200, 1367,  200,  200,  200, 1275, 1367,  200,
-      200,  200,  200,  200,  200,  200,  200,  200, 1367, 1274,
-      200,  200, 1276,  200, 1367,  200, 1367,  200,  200,  200,
-
-     1367,  200,  200,  200, 1275, 1367,  200, 1367,  200,  200,
-      200,  200,  200,  200,  200, 1367, 1274,  200,  200, 1276,
-     1277,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1367, 1367, 1367, 1367,  200,
-     1367, 1367, 1278, 1367,  200,  200, 1367, 1277,  200, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200, 1367,  200, 1367,  200,  200,  200, 1367, 1278,
-     1367,  200,  200, 1279, 1367, 1367, 1367,  200,  200, 1367,
-      200, 1367, 1367, 1280,  200,  200,  200, 1367, 1367, 1367,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-
-     1279, 1367,  200, 1367,  200, 1367, 1367,  200, 1367, 1367,
-     1280,  200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200, 1281,  200,  200, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,
-     1282,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-     1281, 1367,  200, 1367,  200, 1367, 1367,  200,  200, 1283,
-      200,  200, 1367,  200,  200,  200,  200, 1282,  200, 1367,
-      200,  200, 1284,  200, 1285, 1367,  200, 1367,  200, 1367,
-     1367, 1367, 1367, 1367,  200,  200, 1283,  200, 1367, 1367,
-
-     1367,  200,  200,  200,  200, 1367, 1286,  200,  200, 1284,
-      200, 1285, 1367,  200,  200,  200,  200, 1367,  200,  200,
-     1367,  200, 1367,  200,  200, 1367,  200, 1367, 1367,  200,
-     1367,  200,  200, 1286,  200, 1367,  200,  200, 1367,  200,
-     1367,  200,  200,  200,  200,  200,  200, 1367,  200, 1367,
-      200,  200,  200,  200,  200, 1367,  200, 1302,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1367,  200,  200,
-      200,  200,  200, 1304,  200,  200,  200, 1367,  200,  200,
-      200,  200,  200, 1367, 1302,  200, 1367, 1367, 1367,  200,
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-
-     1304,  200, 1367,  200,  200,  200,  200,  200, 1305,  200,
-      200, 1367, 1367, 1367,  200, 1367,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200,  200,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200, 1305,  200,  200, 1367, 1306,
-     1367,  200,  200,  200,  200, 1367, 1367, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200, 1367, 1367, 1367,  200,
-      200,  200, 1367,  200, 1367, 1367, 1306, 1367, 1367,  200,
-      200,  200,  200, 1367, 1367, 1367,  200,  200, 1367,  200,
-     1367,  200,  200, 1309,  200, 1307, 1308,  200,  200, 1367,
-      200,  200,  200, 1367, 1310,  200,  200,  200,  200,  200,
-
-      200, 1367, 1367,  200,  200, 1367, 1367, 1367, 1367,  200,
-     1309,  200, 1307, 1308,  200,  200,  200,  200,  200,  200,
-      200, 1310,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1367, 1367,  200,  200,  200,
-     1367,  200, 1367,  200, 1367,  200,  200, 1367, 1311, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1313,  200,  200,  200,  200, 1312,
-      200, 1314,  200,  200, 1367, 1311,  200, 1367,  200, 1367,
-      200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,  200,
-
-      200, 1313,  200, 1367,  200,  200, 1312,  200, 1314,  200,
-      200, 1323, 1316,  200, 1325,  200, 1367,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1367,  200,  200, 1367,  200,
-     1367, 1367,  200,  200,  200, 1367,  200, 1367, 1367, 1367,
-      200, 1325,  200,  200, 1367,  200,  200, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-      200, 1326,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1327, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200, 1367, 1367, 1367, 1367, 1326,  200,
-
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200,  200, 1327, 1367,  200,  200,  200,  200,  200, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200,  200,
-      200, 1328, 1367,  200,  200,  200,  200,  200,  200,  200,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200,  200,  200,  200, 1328, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1367,
-      200,  200, 1367,  200,  200,  200,  200, 1336, 1367, 1367,
-      200,  200,  200, 1367,  200, 1367,  200,  200, 1367, 1367,
-      200,  200, 1367, 1367, 1367, 1367,  200,  200, 1367, 1367,
-
-     1367,  200,  200, 1367, 1336, 1367, 1367,  200, 1367,  200,
-     1367,  200, 1367,  200,  200, 1367, 1367,  200,  200, 1367,
-     1367, 1367, 1367,  200,   46,   46,   46,   46,   46,   88,
-     1367, 1367,   88,   88,  185,  185,  185, 1367,  185,  187,
-     1367,  187,  187,  187,  190, 1367,  190,  190,  190,  200,
-     1367,  200,  200,  200,    7, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367
+        6,    7,    8,    9,   10,   11,   12,   13,   14,   15,
+       15,   15,   15,   15,   15,   15,   15,   15,   15,   16,
+       17,   18,   19,   20,   21,   22,   23,   24,   25,   26,
+       27,   28,   29,   30,   31,   32,   33,   34,   35,   36,
+       37,   38,   39,   40,   41,   35,   42,   35,    6,   19,
+       20,   21,   22,   23,   24,   25,   26,   27,   28,   29,
+       30,   31,   32,   33,   34,   35,   36,   37,   38,   39,
+       40,   41,   35,   42,   35,   43,   46,   46,   46,   46,
+       49,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   50,   52,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   54,   55,   59,   65,   60,   89,   91,
+       66,   69,   99,   61,   90,   62,   67,   92,   70,   63,
+       64,  100,  136,   93,  137,   71,   68,  138,   72,   58,
+      143,   73,   59,   65,   60,   89,   91,   66,   69,   99,
+       61,   90,   62,   67,   92,   70,   63,   64,  100,  136,
+       93,  137,   71,   68,  138,   72,   74,  143,   73,   79,
+       75,   80,   46,   46,   76,  101,   81,  151,  104,  102,
+       77,   82,  105,   78,  687,  103,  626,  626,  106,  141,
+      142,  152,  686,   74,  663,  663,   79,   75,   80,  685,
+      107,   76,  101,   81,  151,  104,  102,   77,   82,  105,
+
+       78,   83,  103,  116,  108,  106,  141,  142,  152,   84,
+      109,  110,   85,  157,  117,   86,   94,  107,   87,  683,
+      118,   88,   95,   96,   97,  139,  158,  681,   83,   98,
+      116,  108,  679,  140,  677,  675,   84,  109,  110,   85,
+      157,  117,   86,   94,  162,   87,  111,  118,   88,   95,
+       96,   97,  139,  158,  112,  119,   98,  153,  113,  120,
+      140,  114,  115,  121,  155,  154,  163,  156,  166,  122,
+      673,  162,  669,  111,  173,  662,  181,  182,  648,  183,
+      624,  112,  119,  578,  153,  113,  120,  503,  114,  115,
+      121,  155,  154,  163,  156,  166,  122,  123,  184,  124,
+
+      185,  173,  125,  181,  182,  126,  183,  127,  404,  128,
+      129,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,  159,  160,  164,  123,  184,  124,  185,  276,  125,
+      165,  188,  126,  194,  127,  161,  128,  129,  130,  167,
+      168,  169,  131,  170,  171,  132,  133,  195,  159,  160,
+      164,  196,  134,  199,  172,  135,  149,  165,  188,  147,
+      194,  146,  161,  144,   57,  130,  167,  168,  169,  131,
+      170,  171,  132,  133,  195,   56,   47,  688,  196,  134,
+      199,  172,  135,  150,  150,  150,  150,  150,  150,  150,
+      150,  150,  150,   52,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,  174,  176,  200,  177,  197,  175,
+      178,  186,  187,  189,  198,  190,  179,  201,  202,  191,
+      205,  203,  206,  180,  204,  207,  192,  208,   45,  213,
+      193,  174,  176,  200,  177,  197,  175,  178,  186,  187,
+      189,  198,  190,  179,  201,  202,  191,  205,  203,  206,
+      180,  204,  207,  192,  208,  209,  213,  193,  214,  215,
+      216,  217,  219,  218,  220,  210,  222,  223,  224,  225,
+      211,  212,  228,  226,  229,  221,  227,  230,  231,  232,
+      233,  234,  209,  235,  238,  214,  215,  216,  217,  219,
+      218,  220,  210,  222,  223,  224,  225,  211,  212,  228,
+
+      226,  229,  221,  227,  230,  231,  232,  233,  234,  236,
+      235,  238,  239,  237,  243,  244,  246,  240,  247,  250,
+      252,  253,  254,  255,  256,  241,  245,  248,   45,  259,
+      242,  260,  261,  251,  688,  249,  236,  267,  268,  239,
+      237,  243,  244,  246,  240,  247,  250,  252,  253,  254,
+      255,  256,  241,  245,  248,  257,  259,  242,  260,  261,
+      251,  262,  249,  264,  267,  268,  258,  271,  269,  273,
+      265,  274,  275,  266,  270,  277,  278,  279,  280,  281,
+      272,  263,  257,  688,  688,  688,  688,  688,  262,  688,
+      264,  688,  282,  258,  271,  269,  273,  265,  274,  275,
+
+      266,  270,  277,  278,  279,  280,  281,  272,  263,  150,
+      150,  150,  150,  150,  150,  150,  150,  150,  150,  282,
+      283,  284,  285,  286,  287,  290,  288,  291,  292,  293,
+      294,  295,  296,  297,  298,  299,  300,  301,  302,  688,
+      305,  289,  306,  307,  308,  309,  310,  283,  284,  285,
+      286,  287,  290,  288,  291,  292,  293,  294,  295,  296,
+      297,  298,  299,  300,  301,  302,  303,  305,  289,  306,
+      307,  308,  309,  310,  311,  312,  313,  314,  315,  316,
+      317,  304,  318,  319,  320,  321,  322,  324,  325,  326,
+      327,  328,  329,  303,  323,  330,  331,  332,  333,  334,
+
+      335,  311,  312,  313,  314,  315,  316,  317,  304,  318,
+      319,  320,  321,  322,  324,  325,  326,  327,  328,  329,
+      336,  323,  330,  331,  332,  333,  334,  335,  337,  339,
+      340,  341,  342,  343,  344,  345,  347,  348,  338,  349,
+      350,  351,  352,  353,  354,  346,  355,  336,  356,  357,
+      358,  361,  688,  364,  365,  337,  339,  340,  341,  342,
+      343,  344,  345,  347,  348,  338,  349,  350,  351,  352,
+      353,  354,  346,  355,  359,  356,  357,  358,  361,  362,
+      364,  365,  366,  367,  368,  369,  370,  371,  372,  373,
+      374,  375,  363,  360,  376,  377,  378,  379,  380,  381,
+
+      382,  359,  383,  384,  385,  386,  362,  387,  390,  366,
+      367,  368,  369,  370,  371,  372,  373,  374,  375,  363,
+      360,  376,  377,  378,  379,  380,  381,  382,  388,  383,
+      384,  385,  386,  393,  387,  390,  391,  389,  392,  394,
+      395,  396,  397,  398,  399,  400,  402,  403,  405,  401,
+      406,  407,  408,  409,  410,  388,  411,  412,  413,  414,
+      393,  415,  416,  391,  389,  392,  394,  395,  396,  397,
+      398,  399,  400,  402,  403,  405,  401,  406,  407,  408,
+      409,  410,  417,  411,  412,  413,  414,  418,  415,  416,
+      419,  420,  421,  422,  423,  424,  425,  426,  427,  428,
+
+      429,  430,  431,  432,  433,  434,  435,  436,  437,  417,
+      438,  439,  440,  441,  418,  442,  443,  419,  420,  421,
+      422,  423,  424,  425,  426,  427,  428,  429,  430,  431,
+      432,  433,  434,  435,  436,  437,  444,  438,  439,  440,
+      441,  445,  442,  443,  446,  447,  448,  449,  450,  451,
+      452,  453,  455,  456,  457,  458,  459,  460,  461,  462,
+      463,  464,  454,  444,  465,  466,  467,  468,  445,  469,
+      470,  446,  447,  448,  449,  450,  451,  452,  453,  455,
+      456,  457,  458,  459,  460,  461,  462,  463,  464,  454,
+      471,  465,  466,  467,  468,  472,  469,  470,  473,  474,
+
+      475,  476,  477,  478,  479,  480,  481,  482,  483,  484,
+      485,  486,  487,  488,  489,  490,  491,  471,  492,  493,
+      494,  495,  472,  496,  497,  473,  474,  475,  476,  477,
+      478,  479,  480,  481,  482,  483,  484,  485,  486,  487,
+      488,  489,  490,  491,  498,  492,  493,  494,  495,  499,
+      496,  497,  500,  501,  502,  504,  505,  506,  507,  508,
+      509,  510,  511,  512,  513,  514,  515,  516,  517,  518,
+      519,  498,  520,  521,  522,  523,  499,  524,  525,  500,
+      501,  502,  504,  505,  506,  507,  508,  509,  510,  511,
+      512,  513,  514,  515,  516,  517,  518,  519,  526,  520,
+
+      521,  522,  523,  527,  524,  525,  528,  529,  530,  531,
+      532,  533,  534,  535,  536,  537,  538,  539,  540,  541,
+      543,  544,  542,  545,  546,  526,  547,  548,  549,  550,
+      527,  551,  552,  528,  529,  530,  531,  532,  533,  534,
+      535,  536,  537,  538,  539,  540,  541,  543,  544,  542,
+      545,  546,  553,  547,  548,  549,  550,  554,  551,  552,
+      555,  556,  557,  558,  559,  560,  561,  562,  563,  564,
+      565,  566,  567,  568,  569,  570,  571,  572,  573,  553,
+      574,  575,  576,  577,  554,  579,  580,  555,  556,  557,
+      558,  559,  560,  561,  562,  563,  564,  565,  566,  567,
+
+      568,  569,  570,  571,  572,  573,  581,  574,  575,  576,
+      577,  582,  579,  580,  583,  584,  585,  586,  587,  588,
+      589,  590,  591,  592,  593,  594,  595,  596,  597,  598,
+      599,  600,  601,  581,  602,  603,  604,  605,  582,  606,
+      607,  583,  584,  585,  586,  587,  588,  589,  590,  591,
+      592,  593,  594,  595,  596,  597,  598,  599,  600,  601,
+      608,  602,  603,  604,  605,  609,  606,  607,  610,  611,
+      612,  613,  614,  615,  616,  617,  618,  619,  620,  621,
+      622,  623,  625,  627,  628,  629,  630,  608,  631,  632,
+      633,  634,  609,  635,  636,  610,  611,  612,  613,  614,
+
+      615,  616,  617,  618,  619,  620,  621,  622,  623,  625,
+      627,  628,  629,  630,  637,  631,  632,  633,  634,  638,
+      635,  636,  639,  640,  641,  642,  643,  644,  645,  646,
+      647,  649,  626,  626,  651,  652,  653,  654,  655,  656,
+      657,  637,  658,  688,  659,  660,  638,  661,  664,  639,
+      640,  641,  642,  643,  644,  645,  646,  647,  649,  665,
+      666,  651,  652,  653,  654,  655,  656,  657,  667,  658,
+      650,  659,  660,  668,  661,  664,  663,  663,  671,  672,
+      674,  676,  678,  680,  682,  684,  665,  666,  688,  688,
+      688,  688,  688,  688,  688,  667,  688,  650,  688,  688,
+
+      668,  688,  688,  688,  688,  671,  672,  674,  676,  678,
+      680,  682,  684,  688,  688,  688,  688,  688,  670,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  670,   44,   44,   44,   44,
+       44,   48,  688,  688,   48,   48,  145,  145,  145,  688,
+      145,  148,  688,  148,  148,  148,    5,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688
     } ;
 
-static const flex_int16_t yy_chk[9032] =
+static const flex_int16_t yy_chk[1544] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -2097,993 +1050,169 @@ static const flex_int16_t yy_chk[9032] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    9,    9,   10,   10,   15,   16,   16,   16,
-       16,   16,   16,   16,   16,   16,   16,   15,   17,   17,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
-       18,   21,   22,   21,   27,   28,   22,   23,   30,   21,
-       27,   21,   22,   28,   23,   21,   21,   31,   41,   28,
-
-       41,   23,   22,   41,   23, 1370,   44,   23,   21,   22,
-       21,   27,   28,   22,   23,   30,   21,   27,   21,   22,
-       28,   23,   21,   21,   31,   41,   28,   41,   23,   22,
-       41,   23,   24,   44,   23,   25,   24,   25,   49,   49,
-       24,   32,   25,   99,   33,   32,   24,   25,   33,   24,
-       55,   32,   50,   50,   33,   43,   43,   58,   58,   24,
-     1364,   55,   25,   24,   25, 1363,   34,   24,   32,   25,
-       99,   33,   32,   24,   25,   33,   24,   26,   32,   36,
-       34,   33,   43,   43,  100,   26,   34,   34,   26,  103,
-       36,   26,   29,   34,   26, 1362,   36,   26,   29,   29,
-
-       29,   42,   86,   86,   26,   29,   36,   34, 1361,   42,
-     1359,  100,   26,   34,   34,   26,  103,   36,   26,   29,
-     1357,   26,   35,   36,   26,   29,   29,   29,   42,  104,
-       35,   38,   29,  101,   35,   38,   42,   35,   35,   38,
-       81,  101,   81,  106,   81,   38, 1355,   81, 1353,   35,
-      102, 1351,   81,  102, 1349,  107,  104,   35,   38, 1347,
-      101,   35,   38, 1345,   35,   35,   38,   81,  101,   81,
-      106,   81,   38,   39,   81,   39,  110,  102,   39,   81,
-      102,   39,  107,   39,  113,   39,   39,   56,   56,   56,
-       56,   56,   56,   56,   56,   56,   56,  188,  188, 1343,
-
-       39, 1341,   39,  110, 1339,   39,  105,  105,   39,  109,
-       39,  113,   39,   39,   40,  112,  109,   67,   40,   67,
-      105,   40,   40,   67,   67,  112,  116,  116,   40,   67,
-      117,   40, 1337,  105,  105, 1333,  109, 1155, 1155, 1288,
-     1288,   40,  112,  109,   67,   40,   67,  105,   40,   40,
-       67,   67,  112,  116,  116,   40,   67,  117,   40,   57,
-       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
-       61,   61,  118,   61,   61,   61,   61,   61,   61,  119,
-       68,  114, 1329, 1322,   68, 1315,  114,  121,   68,   61,
-       61,   61,   70,  123,   68,   61,   70,   61,  124,  118,
-
-      120,  120,   70,   61,   68,   61,  119,   68,  114,   61,
-       61,   68,   70,  114,  121,   68,  125,  127, 1301,   70,
-      123,   68,   61,   70,   61,  124, 1287,  120,  120,   70,
-       61,   68,   61, 1263,  128, 1239,   61,   61, 1193,   70,
-     1147, 1072,  997,  125,  127,   61,   62,   62,  898,   62,
-       62,   62,   62,   62,   62,  799,  671,  129,   71,   72,
-       73,  128,   71,   72,   73,   62,   62,   62,   71,   72,
-       73,  130,   62,   77,  132,  126,   62,   77,   71,   72,
-       73,  126,   62,   77,  129,   71,   72,   73,  133,   71,
-       72,   73,   62,   77,  543,   71,   72,   73,  130,   62,
-
-       77,  132,  126,   62,   77,   71,   72,   73,  126,   62,
-       77,  416,  288,   83,  135,  133,   83,   83,  136,   62,
-       77,   62,   63,   83,   78,  192,   63,  138,   78,   63,
-       63,  131,   78,   83,  131,  190,   63,  139,   78,   63,
-       83,  135,   63,   83,   83,  136,   63,   90,   78,   63,
-       83,   78,  137,   63,  138,   78,   63,   63,  131,   78,
-       83,  131,  137,   63,  139,   78,   63,  137,  137,   63,
-       88,   85,   82,   63,   64,   78,   82,   84,   64,  137,
-       82,   84,   64,  140,  141,  144,   82,   84,   64,  137,
-      142,   64,  142,  145,  137,  137,   82,   84,   64,   82,
-
-       60,   64,   59,   82,   84,   64,   52,   82,   84,   64,
-      140,  141,  144,   82,   84,   64,   51,  142,   64,  142,
-      145,  146,  147,   82,   84,   64,   65,  111,  111,  111,
-       65,  111,  115,   65,  115,   65,   65,  115,  149,  143,
-       65,  143,  150,  115,  151,   65,   65,   47,  146,  147,
-      115,   45,  143,   65,  111,  111,  111,   65,  111,  115,
-       65,  115,   65,   65,  115,  149,  143,   65,  143,  150,
-      115,  151,   65,   65,   66,  148,  153,  115,  148,  143,
-      154,   66,   66,  155,  156,   66,  157,  122,   66,  122,
-      159,   66,  158,  122,   66,   20,  158,  161,   19,  163,
-
-      122,   66,  148,  153,  122,  148,   11,  154,   66,   66,
-      155,  156,   66,  157,  122,   66,  122,  159,   66,  158,
-      122,   66,   69,  158,  161,  162,  163,  122,   69,   69,
-       69,  122,  160,  165,  164,   69,  162,  160,  166,  167,
-       69,    7,  168,  164,  169,  160,  170,  165,    4,   69,
-      160,  164,  162,  172,  173,   69,   69,   69,    3,  160,
-      165,  164,   69,  162,  160,  166,  167,   69,   74,  168,
-      164,  169,  160,  170,  165,   74,  171,  160,  164,  174,
-      172,  173,   74,  177,  176,   74,    0,  171,   74,   74,
-        0,  176,  178,  175,  176,   74,    0,    0,  181,  179,
-
-      182,  183,   74,  171,    0,  179,  174,    0,  291,   74,
-      177,  176,   74,  175,  171,   74,   74,   75,  176,  178,
-      175,  176,   75,  180,   75,  181,  179,  182,  183,  293,
-       75,   75,  179,  294,   75,  291,  180,   75,   75,    0,
-      175,    0,    0,    0,   75,    0,    0,    0,    0,   75,
-      180,   75,    0,    0,    0,  296,  293,   75,   75,    0,
-      294,   75,  208,  180,   75,   75,   76,  208,  200,  208,
-      201,  201,  200,   76,  208,  201,  298,   76,  200,  208,
-       76,  201,  296,   76,  299,  300,   76,    0,  200,  208,
-      301,  201,    0,   76,  208,  200,  208,  201,  201,  200,
-
-       76,  208,  201,  298,   76,  200,  208,   76,  201,    0,
-       76,  299,  300,   76,   79,  200,   79,  301,  201,   79,
-       79,  302,   79,  203,   79,  203,   79,   79,    0,    0,
-      203,  203,    0,    0,  303,  203,   79,    0,    0,    0,
-        0,   79,    0,   79,    0,    0,   79,   79,  302,   79,
-      203,   79,  203,   79,   79,  202,  209,  203,  203,  202,
-      209,  303,  203,   79,   80,  202,  209,  205,   80,  205,
-      202,   80,   80,  205,  205,  202,  209,  305,   80,  205,
-      306,   80,  202,  209,  307,  308,  202,  209,   80,    0,
-        0,   80,  202,  209,  205,   80,  205,  202,   80,   80,
-
-      205,  205,  202,  209,  305,   80,  205,  306,   80,    0,
-        0,  307,  308,    0,    0,   80,   91,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,   92,   92,   92,   92,
-       92,   92,   92,   92,   92,   92,   93,   93,   93,   93,
-       93,   93,   93,   93,   93,   93,   93,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  194,  194,  194,
-      194,  194,  194,  194,  194,  194,  194,  195,  195,  195,
-      195,  195,  195,  195,  195,  195,  195,  195,  204,  206,
-      304,  204,  304,  309,  310,  311,  312,    0,  206,  204,
-      206,  204,  313,  314,  210,  206,  204,  304,  210,  315,
-
-      206,  204,    0,    0,  210,  204,  206,  304,  204,  304,
-      309,  310,  311,  312,  210,  206,  204,  206,  204,  313,
-      314,  210,  206,  204,  304,  210,  315,  206,  204,  207,
-      207,  210,  211,  316,  211,  207,    0,  207,  317,  211,
-      212,  210,  207,  207,  211,  319,  320,  207,  321,  322,
-        0,  212,  323,  212,    0,  324,  207,  207,  212,  211,
-      316,  211,  207,  212,  207,  317,  211,  212,    0,  207,
-      207,  211,  319,  320,  207,  321,  322,  214,  212,  323,
-      212,  214,  324,  325,    0,  212,  318,  214,    0,    0,
-      212,  213,  213,  213,    0,  213,  215,  214,  213,    0,
-
-      215,  318,  327,  213,  214,  221,  215,  221,  214,  215,
-      325,  216,  221,  318,  214,  216,  215,  221,  213,  213,
-      213,  216,  213,  215,  214,  213,  216,  215,  318,  327,
-      213,  216,  221,  215,  221,  328,  215,    0,  216,  221,
-        0,  329,  216,  215,  221,    0,    0,    0,  216,  330,
-        0,    0,    0,  216,  331,    0,  332,  333,  216,  217,
-        0,  217,  328,    0,  217,  334,  335,  218,  329,  218,
-      217,    0,  217,  218,  218,    0,  330,  217,  219,  218,
-      219,  331,  217,  332,  333,  219,  217,  219,  217,  336,
-      219,  217,  334,  335,  218,  337,  218,  217,  220,  217,
-
-      218,  218,  220,  337,  217,  219,  218,  219,  220,  217,
-      338,  339,  219,  340,  219,  223,  336,  219,  220,    0,
-        0,  341,  337,  227,  223,  220,  223,  227,    0,  220,
-      337,  223,  225,  227,  225,  220,  223,  338,  339,  225,
-      340,  342,  223,  227,  225,  220,  222,  222,  341,    0,
-      227,  223,  343,  223,  227,  222,    0,  222,  223,  225,
-      227,  225,  222,  223,  344,  345,  225,  222,  342,  346,
-      227,  225,  347,  222,  222,  348,  226,  349,  226,  343,
-        0,    0,  222,  226,  222,    0,    0,    0,  226,  222,
-        0,  344,  345,    0,  222,  224,  346,  224,    0,  347,
-
-        0,  224,  348,  226,  349,  226,  350,  224,  224,  229,
-      226,  352,  224,  229,  228,  226,  228,  224,    0,  229,
-      228,  228,  224,  353,  224,  230,  228,  230,  224,  229,
-        0,  355,  230,  350,  224,  224,  229,  230,  352,  224,
-      229,  228,  356,  228,  224,  231,  229,  228,  228,  231,
-      353,    0,  230,  228,  230,  231,  229,  232,  355,  230,
-      357,  232,  358,  351,  230,  231,  360,  232,  233,  356,
-      233,  361,  231,  351,  362,  233,  231,  232,  233,  234,
-      233,  234,  231,    0,  232,    0,  234,  357,  232,  358,
-      351,  234,  231,  360,  232,  233,  363,  233,  361,  364,
-
-      351,  362,  233,    0,  232,  233,  234,  233,  234,  236,
-      235,  236,  235,  234,  366,  359,  236,  235,  234,  235,
-      237,  236,  235,  363,  237,  359,  364,    0,    0,    0,
-      237,    0,    0,    0,    0,  367,  236,  235,  236,  235,
-      237,  366,  359,  236,  235,  368,  235,  237,  236,  235,
-      238,  237,  359,  369,  238,  241,  240,  237,  240,  241,
-      238,  238,  367,  240,  370,  241,  371,  237,  240,  372,
-      238,    0,  368,    0,  242,  241,    0,  238,  242,    0,
-      369,  238,  241,  240,  242,  240,  241,  238,  238,    0,
-      240,  370,  241,  371,  242,  240,  372,  238,  239,  243,
-
-      243,  242,  241,  243,  373,  242,  239,  374,  239,  243,
-      246,  242,  246,  239,  239,    0,  246,  246,  239,  243,
-        0,  242,  246,  373,    0,  239,  243,  243,    0,    0,
-      243,  373,    0,  239,  374,  239,  243,  246,  257,  246,
-      239,  239,  257,  246,  246,  239,  243,  244,  257,  246,
-      373,  244,  247,  244,  247,  244,  260,  244,  257,  247,
-      260,  376,  377,    0,  247,  257,  260,  244,    0,  257,
-        0,    0,  378,    0,  244,  257,  260,  375,  244,  247,
-      244,  247,  244,  260,  244,  257,  247,  260,  376,  377,
-      375,  247,    0,  260,  244,  245,  379,  245,  248,  378,
-
-      248,  380,  381,  260,  375,  248,  245,  249,  245,  249,
-      248,  382,  383,  245,  249,  249,  384,  375,  245,  249,
-        0,  385,  245,  379,  245,  248,  386,  248,  380,  381,
-        0,    0,  248,  245,  249,  245,  249,  248,  382,  383,
-      245,  249,  249,  384,    0,  245,  249,  250,  385,  250,
-      251,    0,  251,  386,  250,  250,    0,  251,  250,  250,
-      252,    0,  251,  254,  387,  254,  389,    0,  390,    0,
-      254,  252,    0,  252,  250,  254,  250,  251,  252,  251,
-        0,  250,  250,  252,  251,  250,  250,  252,  253,  251,
-      254,  387,  254,  389,  253,  390,  253,  254,  252,  255,
-
-      252,  253,  254,    0,  391,  252,  253,  255,    0,  255,
-      252,    0,    0,  392,  255,  253,  393,  394,    0,  255,
-      395,  253,    0,  253,    0,  396,  255,  397,  253,    0,
-      256,  391,  256,  253,  255,  258,  255,  256,  256,  258,
-      392,  255,  256,  393,  394,  258,  255,  395,  258,  261,
-        0,  261,  396,  398,  397,  258,  261,  256,  399,  256,
-        0,  261,  258,  259,  256,  256,  258,  259,  401,  256,
-      403,  259,  258,    0,  263,  258,  261,  259,  261,  263,
-      398,  263,  258,  261,  405,  399,  263,  259,  261,    0,
-      259,  263,    0,    0,  259,  401,    0,  403,  259,    0,
-
-      402,  263,    0,    0,  259,  264,  263,  264,  263,  402,
-        0,  405,  264,  263,  259,  262,  264,  264,  263,  265,
-      262,  406,  407,  265,    0,  265,  262,  402,  262,  404,
-      265,  404,  264,  262,  264,  265,  402,  267,  262,  264,
-      408,  267,  262,  264,  264,  267,  265,  262,  406,  407,
-      265,  267,  265,  262,    0,  262,  404,  265,  404,  268,
-      262,  267,  265,  268,  267,  262,  266,  408,  267,  268,
-      409,  410,  267,  411,  413,  266,    0,  266,  267,  268,
-        0,  269,  266,  266,    0,  269,  268,  266,  267,  269,
-      268,    0,    0,  266,    0,  269,  268,  409,  410,  412,
-
-      411,  413,  266,  412,  266,  269,  268,  270,  269,  266,
-      266,  270,  269,  414,  266,  271,  269,  270,  272,  271,
-      270,  272,  269,  271,  544,  272,  412,  270,  545,  271,
-      412,  272,  269,    0,  270,    0,  546,  547,  270,  271,
-      414,  272,  271,  548,  270,  272,  271,  270,  272,  274,
-      271,  544,  272,  274,  270,  545,  271,    0,  272,  274,
-      273,  273,  273,  546,  547,  549,  271,  273,  272,  274,
-      548,  275,  273,  276,  550,  275,  274,  276,    0,  275,
-      274,  275,  551,  276,  276,    0,  274,  273,  273,  273,
-        0,  275,  549,  276,  273,    0,  274,  552,  275,  273,
-
-      276,  550,  275,  280,  276,  277,  275,  280,  275,  551,
-      276,  276,  277,  280,  554,  557,  279,  279,  275,  277,
-      276,  279,  277,  280,  552,  277,    0,  279,    0,    0,
-      280,  558,  277,    0,  280,    0,    0,  279,    0,  277,
-      280,  554,  557,  279,  279,  559,  277,  560,  279,  277,
-      280,    0,  277,  278,  279,  281,  278,  281,  558,  562,
-      278,  281,  281,  278,  279,  282,  278,  281,    0,  282,
-      563,  564,  559,    0,  560,  282,  278,    0,  282,  565,
-      278,  567,  281,  278,  281,  282,  562,  278,  281,  281,
-      278,  283,  282,  278,  281,  283,  282,  563,  564,    0,
-
-      284,  283,  282,  278,  284,  282,  565,  568,  567,  285,
-      284,  283,  282,  285,  422,  284,  422,  285,  283,  569,
-      284,  422,  283,  285,  570,  571,  422,  284,  283,  572,
-      573,  284,  574,  285,  568,    0,  285,  284,  283,    0,
-      285,  422,  284,  422,  285,    0,  569,  284,  422,    0,
-      285,  570,  571,  422,    0,    0,  572,  573,    0,  574,
-      285,  289,  289,  289,  289,  289,  289,  289,  289,  289,
-      289,  417,  417,  417,  417,  417,  417,  417,  417,  417,
-      417,  418,  419,  420,  421,  418,  419,  420,  421,  575,
-      578,  418,  419,  420,  421,    0,  579,  580,    0,  581,
-
-        0,  418,  419,  420,  421,    0,    0,    0,  418,  419,
-      420,  421,  418,  419,  420,  421,  575,  578,  418,  419,
-      420,  421,  424,  579,  580,  423,  581,  423,  418,  419,
-      420,  421,  423,  424,  425,  424,  425,  423,  426,    0,
-      424,  425,  426,    0,  582,  424,  425,    0,  426,  424,
-      583,    0,  423,  584,  423,  585,    0,    0,  426,  423,
-      424,  425,  424,  425,  423,  426,  427,  424,  425,  426,
-      427,  582,  424,  425,  428,  426,  427,  583,  428,  429,
-      584,  587,  585,  429,  428,  426,  427,    0,  430,  429,
-      430,  588,  428,  427,  428,  430,  589,  427,  590,  429,
-
-      430,  428,  431,  427,  431,  428,  429,  593,  587,  431,
-      429,  428,  594,  427,  431,  430,  429,  430,  588,  428,
-      433,  428,  430,  589,  433,  590,  429,  430,    0,  431,
-      433,  431,    0,  433,  593,    0,  431,    0,    0,  594,
-      433,  431,  432,    0,  432,  434,  596,  433,  432,  434,
-      598,  433,  599,    0,  432,  434,  600,  433,  435,  432,
-      433,  434,  435,    0,  432,  434,  435,  433,  435,  432,
-      437,  432,  434,  596,  437,  432,  434,  598,  435,  599,
-      437,  432,  434,  600,    0,  435,  432,    0,  434,  435,
-      437,  432,  434,  435,  436,  435,    0,  437,  436,    0,
-
-      601,  437,  438,  602,  436,  435,  438,  437,  603,  436,
-      438,  439,    0,  439,  436,    0,  438,  437,  439,  606,
-        0,  436,    0,  439,    0,  436,  438,  601,  604,  438,
-      602,  436,  610,  438,  612,  603,  436,  438,  439,  604,
-      439,  436,  440,  438,  440,  439,  606,  441,  440,  440,
-      439,  441,  613,  438,  440,  604,  442,  441,  442,  610,
-      615,  612,  617,  442,  618,    0,  604,  441,  442,  440,
-      443,  440,  443,    0,  441,  440,  440,  443,  441,  613,
-        0,  440,  443,  442,  441,  442,    0,  615,  444,  617,
-      442,  618,  444,  619,  441,  442,    0,  443,  444,  443,
-
-      616,  616,  445,  446,  443,  621,  445,  446,  444,  443,
-      445,    0,  622,  446,  623,  444,  445,  624,  446,  444,
-      619,    0,  626,  446,    0,  444,  445,  616,  616,  445,
-      446,    0,  621,  445,  446,  444,  447,  445,  447,  622,
-      446,  623,  447,  445,  624,  446,  627,  448,  447,  626,
-      446,  448,    0,  445,  629,    0,  449,  448,  447,    0,
-      449,  630,  631,  447,  632,  447,  449,  448,    0,  447,
-        0,  449,    0,  627,  448,  447,  449,    0,  448,  450,
-        0,  629,  450,  449,  448,  447,  450,  449,  630,  631,
-        0,  632,  450,  449,  448,  452,  634,  451,  449,  452,
-
-      453,  451,  450,  449,  453,  452,  450,  451,  451,  450,
-      453,  635,  636,  450,    0,  452,  637,  451,    0,  450,
-      453,  638,  452,  634,  451,  640,  452,  453,  451,  450,
-      641,  453,  452,    0,  451,  451,  454,  453,  635,  636,
-      454,  455,  452,  637,  451,  455,  454,  453,  638,  455,
-      456,    0,  640,    0,  456,  455,  454,  641,  642,  458,
-      456,  458,  459,  454,  459,  455,  458,  454,  455,  459,
-      456,  458,  455,  454,  459,    0,  455,  456,  457,    0,
-      457,  456,  455,  454,  457,  642,  458,  456,  458,  459,
-      457,  459,  455,  458,  643,  646,  459,  456,  458,    0,
-
-      457,  459,  460,  647,  460,  457,  462,  457,  460,  460,
-      462,  457,  648,  461,  460,  461,  462,  457,  649,  650,
-      461,  643,  646,  653,  463,  461,  462,  457,  463,  460,
-      647,  460,  463,  462,    0,  460,  460,  462,  463,  648,
-      461,  460,  461,  462,  654,  649,  650,  461,  463,  656,
-      653,  463,  461,  462,  464,  463,  464,  657,  658,  463,
-      465,  464,    0,  659,  465,  463,  464,  660,  465,  466,
-      465,  654,  661,  466,    0,  463,  656,  466,  662,  466,
-      465,  464,  663,  464,  657,  658,    0,  465,  464,  466,
-      659,  465,    0,  464,  660,  465,  466,  465,    0,  661,
-
-      466,  467,  468,  467,  466,  662,  466,  465,  467,  663,
-        0,  664,  468,  467,  468,  666,  466,    0,  668,  468,
-        0,    0,  670,    0,  468,  469,    0,  469,  467,  468,
-      467,    0,  469,    0,  469,  467,    0,  469,  664,  468,
-      467,  468,  666,  471,  470,  668,  468,  471,  470,  670,
-      470,  468,  469,  471,  469,  470,  802,    0,  472,  469,
-      470,  469,  472,  471,  469,    0,  804,    0,  472,    0,
-      471,  470,  806,  472,  471,  470,  807,  470,  472,    0,
-      471,  808,  470,  802,  473,  472,  809,  470,  473,  472,
-      471,    0,  474,  804,  473,  472,  474,  473,  474,  806,
-
-      472,    0,  474,  807,  473,  472,  475,    0,  808,    0,
-      475,  473,  474,  809,  810,  473,  475,    0,  476,  474,
-      811,  473,  476,  474,  473,  474,  475,    0,  476,  474,
-      477,  473,  478,  475,  477,  812,  478,  475,  476,  474,
-      477,  810,  478,  475,  479,  476,  813,  811,  479,  476,
-      477,    0,  478,  475,  479,  476,  480,  477,    0,  478,
-      480,  477,  812,  478,  479,  476,  480,  477,  814,  478,
-      816,  479,  480,  813,  817,  479,  480,  477,  481,  478,
-      481,  479,  482,  480,  482,  481,    0,  480,  818,  482,
-      481,  479,    0,  480,  482,  814,    0,  816,  819,  480,
-
-      484,  817,    0,  480,  484,  481,  483,  481,  483,  482,
-      484,  482,  481,  483,  483,  818,  482,  481,  483,  485,
-      484,  482,  488,  485,  488,  819,  488,  484,  820,  485,
-        0,  484,  488,  483,    0,  483,  821,  484,  823,  485,
-      483,  483,  488,  486,  486,  483,  485,  484,  486,  488,
-      485,  488,  824,  488,  486,  820,  485,  491,  489,  488,
-      489,  491,  489,  821,  486,  823,  485,  491,  489,  488,
-      486,  486,  491,    0,  825,  486,    0,  491,  489,  824,
-      826,  486,    0,  827,  491,  489,    0,  489,  491,  489,
-      828,  486,  487,  490,  491,  489,  487,  490,    0,  491,
-
-      487,  825,  487,  490,  491,  489,  487,  826,  829,  490,
-      827,    0,  830,  490,    0,    0,  487,  828,  492,  487,
-      490,  493,  492,  487,  490,  493,  831,  487,  492,  487,
-      490,  493,  832,  487,  492,  829,  490,  833,  492,  830,
-      490,  493,  494,  487,  836,  492,  494,    0,  493,  492,
-      494,  837,  493,  831,    0,  492,  494,  838,  493,  832,
-      495,  492,  495,    0,  833,  492,  494,  495,  493,  494,
-      839,  836,  495,  494,  496,    0,  496,  494,  837,    0,
-      496,  496,  840,  494,  838,    0,  496,  495,  497,  495,
-      497,  841,  498,  494,  495,  497,  498,  839,    0,  495,
-
-      497,  496,  498,  496,    0,  844,  499,  496,  496,  840,
-      499,  847,  498,  496,    0,  497,  499,  497,  841,  498,
-        0,  500,  497,  498,  848,  500,  499,  497,  502,  498,
-      502,  500,  844,  499,  500,  502,    0,  499,  847,  498,
-      502,  500,    0,  499,  850,  853,    0,  506,  500,  506,
-        0,  848,  500,  499,  506,  502,    0,  502,  500,  506,
-      856,  500,  502,  504,  504,  504,    0,  502,  500,  501,
-      504,  850,  853,  501,  506,  504,  506,  501,  857,    0,
-      858,  506,  849,  501,  859,  849,  506,  856,  501,  860,
-      504,  504,  504,  501,    0,  861,  501,  504,  864,  865,
-
-      501,  505,  504,    0,  501,  857,  505,  858,  505,  849,
-      501,  859,  849,  505,  866,  501,  860,  867,  505,  507,
-      501,  503,  861,  507,  868,  864,  865,    0,  505,  507,
-      503,    0,  503,  505,  503,  505,  870,  503,  871,  507,
-      505,  866,  503,    0,  867,  505,  507,    0,  503,  872,
-      507,  868,  874,    0,  508,    0,  507,  503,  508,  503,
-        0,  503,  508,  870,  503,  871,  507,  509,  508,  503,
-      510,  509,  875,  510,  510,    0,  872,  509,  508,  874,
-      510,  508,  509,    0,  511,  508,  511,  509,    0,  508,
-      510,  511,  876,    0,  509,  508,  511,  510,  509,  875,
-
-      510,  510,  513,    0,  509,  508,  513,  510,  512,  509,
-      512,  511,  513,  511,  509,  512,  877,  510,  511,  876,
-      512,  514,  513,  511,  515,  514,  516,  879,  515,  513,
-      516,  514,  880,  513,  515,  512,  516,  512,  520,  513,
-      520,  514,  512,  877,  515,  520,  516,  512,  514,  513,
-      520,  515,  514,  516,  879,  515,  517,  516,  514,  880,
-      517,  515,  881,  516,  882,  520,  517,  520,  514,  517,
-      518,  515,  520,  516,  518,  519,  517,  520,  883,  519,
-      518,  884,  885,  517,  886,  519,  519,  517,  518,  881,
-      518,  882,  521,  517,  521,  519,  517,  518,  887,  521,
-
-      521,  518,  519,  517,  521,  883,  519,  518,  884,  885,
-        0,  886,  519,  519,    0,  518,  522,  518,  522,  521,
-      889,  521,  519,  522,  522,  887,  521,  521,  522,  890,
-      523,  521,  523,  891,  524,  893,  524,  523,  524,  894,
-      895,  524,  523,  522,  998,  522,  524,  889,    0,    0,
-      522,  522,    0,    0,    0,  522,  890,  523,    0,  523,
-      891,  524,  893,  524,  523,  524,  894,  895,  524,  523,
-      525,  998,  525,  524,  526,  527,  526,  525,  525,  527,
-      528,  526,  525, 1000,  528,  527,  526,    0, 1002,    0,
-      528, 1003, 1004, 1005,    0,  527,    0,  525, 1007,  525,
-
-      528,  526,  527,  526,  525,  525,  527,  528,  526,  525,
-     1000,  528,  527,  526,  529, 1002,  529,  528, 1003, 1004,
-     1005,  529,  527,  530,  531, 1007,  529,  528,  531,    0,
-      530, 1009,  530,    0,  531, 1010, 1011,  530, 1012,    0,
-     1013,  529,  530,  529,  531, 1015, 1017,    0,  529,    0,
-      530,  531,    0,  529, 1019,  531,  532,  530, 1009,  530,
-      532,  531, 1010, 1011,  530, 1012,  532, 1013,  532,  530,
-      533,  531, 1015, 1017,  533,    0,  532,  535,  534,  535,
-      533, 1019,  534,  532,  535,    0,  534,  532, 1022,  535,
-      533,    0,  534,  532,    0,  532,    0,  533,    0,    0,
-
-        0,  533,  534,  532,  535,  534,  535,  533,    0,  534,
-     1024,  535,  537,  534, 1025, 1022,  535,  533,  536,  534,
-      536,  537, 1026,  537,  538,  536,  538,  536,  537,  534,
-      536,  538,    0,  537,    0,  538,  538, 1024, 1027,  537,
-        0, 1025, 1034,    0,    0,  536,    0,  536,  537, 1026,
-      537,  538,  536,  538,  536,  537, 1035,  536,  538,  539,
-      537,  539,  538,  538, 1036, 1027,  539,  539,  540, 1034,
-      540,  539, 1039,  541,  540,  540,    0,  541,    0,  541,
-      540, 1041,    0, 1035,  541,    0,  539,    0,  539,  541,
-     1043, 1036,    0,  539,  539,  540,    0,  540,  539, 1039,
-
-      541,  540,  540,  542,  541,  542,  541,  540, 1041,  542,
-      542,  541,  672, 1045,  672,  542,  541, 1043,  672,  672,
-        0,  673, 1046,  673,  672,    0,    0,  673,  673,    0,
-      542, 1047,  542,  673,    0,    0,  542,  542,    0,  672,
-     1045,  672,  542,  674,    0,  672,  672,  674,  673, 1046,
-      673,  672,  675,  674,  673,  673,  675, 1048, 1047,  677,
-      673,  677,  675,  674, 1049,  676,  677, 1050, 1052,  676,
-      674,  677,  675, 1053,  674,  676,    0,  678,  676,  675,
-      674,  678,    0,  675, 1048,  676,  677,  678,  677,  675,
-      674, 1049,  676,  677, 1050, 1052,  676,  678,  677,  675,
-
-     1053, 1054,  676,  680,  678,  676,    0,  680,  678,  679,
-        0,  679,  676,  680,  678,  681,  679, 1055,    0,  681,
-        0,  679,    0,  680,  678,  681, 1057, 1059, 1054, 1061,
-      680, 1062,    0,  682,  680,  681,  679,  682,  679, 1063,
-      680,  682,  681,  679, 1055,  683,  681,  682,  679,  683,
-      680, 1064,  681, 1057, 1059,  683, 1061,  682, 1062,  684,
-      682, 1065,  681,  684,  682,  683, 1063,  685,  682,  684,
-        0,  685,  683, 1070,  682,  685,  683, 1071, 1064,  684,
-        0,  685,  683, 1152,  682,  686,  684, 1156, 1065,  686,
-      684,  685,  683,  686,  685,  686,  684,  687,  685, 1157,
-
-     1070,  687,  685, 1160, 1071,  686,  684,  687,  685,    0,
-     1152,  689,  686,    0, 1156,  689,  686,  687,  685,    0,
-      686,  689,  686,  688,  687,  690, 1157,  688,  687,  690,
-     1160,  689,  686,  688,  687,  690,  688, 1161,  689,  691,
-      690,  691,  689,  688,  687,  690,  691, 1162,  689,  692,
-      688,  691,  690,  692,  688,    0,  690,    0,  689,  692,
-      688,  694,  690,  688, 1161,  694,  691,  690,  691,  692,
-      688,  694,  690,  691, 1162,  693,  692,    0,  691,  693,
-      692,  694,  695,    0,  695,  693,  692,  702,  694,  695,
-      693,  702,  694, 1166,  695,  693,  692,  702,  694,    0,
-
-     1169,    0,  693,  696,  696,  696,  693,  702,  694,  695,
-      696,  695,  693, 1170,  702,  696,  695,  693,  702,    0,
-     1166,  695,  693, 1173,  702, 1174,  697, 1169,  697, 1175,
-      696,  696,  696,  697,  702,  697, 1176,  696,  697,  698,
-     1170,  698,  696, 1179,    0, 1180,  698,  698, 1181,    0,
-     1173,  698, 1174,  697,    0,  697, 1175,    0,  699,    0,
-      697, 1184,  697, 1176, 1186,  697,  698, 1187,  698,  699,
-     1179,  699, 1180,  698,  698, 1181,  699,  700,  698,  700,
-        0,  699, 1188,  700,  700,  699,  701, 1189, 1184,  700,
-     1190, 1186,    0,    0, 1187,  701,  699,  701,  699,    0,
-
-     1240, 1243,  701,  699,  700, 1247,  700,  701,  699, 1188,
-      700,  700,    0,  701, 1189, 1248,  700, 1190,  703,  704,
-      703,  704,  701, 1251,  701,  703,  704, 1240, 1243,  701,
-      703,  704, 1247, 1252,  701, 1241, 1241,  705,    0,  705,
-     1253, 1254, 1248,    0,  705,  703,  704,  703,  704,  705,
-     1251, 1258,  703,  704,    0,  706, 1259,  703,  704, 1260,
-     1252, 1262,    0,  706,  705,  706,  705, 1253, 1254, 1289,
-      706,  705, 1290, 1241, 1293,  706,  705,  707, 1258,  707,
-        0,  707,  706, 1259,  707,    0, 1260,    0, 1262,  707,
-      706,  708,  706,  708,    0,  708, 1289,  706,  708, 1290,
-
-     1241, 1293,  706,  708,  707,  709,  707,  709,  707, 1296,
-        0,  707,  709, 1299,  709,    0,  707,  709,  708,  710,
-      708,  710,  708,    0,  711,  708,  710,  710,    0, 1303,
-      708,  710,  709,    0,  709,  711, 1296,  711,    0,  709,
-     1299,  709,  711, 1317,  709,  713,  710,  711,  710,  713,
-      712,  711,    0,  710,  710,  713, 1303, 1321,  710, 1316,
-     1316,  712,  711,  712,  711,  713,    0,    0,  712,  711,
-     1317,  714,  713,  712,  711,  714,  713,  712,    0,  715,
-     1324,  714,  713,  715, 1321, 1330,    0, 1334,  712,  715,
-      712,  714,  713,  716,  715,  712,    0,  716,  714,  715,
-
-      712, 1316,  714,  716,    0,  717,  715, 1324,  714,  717,
-      715, 1338, 1330,  716, 1334,  717,  715, 1340,  714,  718,
-      716,  715,    0,  718,  716,  717,  715,  718, 1316, 1342,
-      716,  719,  717,  718,    0,  719,  717, 1344, 1338, 1346,
-      716,  719,  717,  718, 1340,  720,  718, 1348,    0,  720,
-      718,  719,  717,  721,  718,  720, 1342,  721,  719,    0,
-      718,  721,  719, 1350, 1344,  720, 1346,  721,  719,    0,
-      718, 1352,  720,    0, 1348,  722,  720,  721,  719,  722,
-      721, 1354,  720,  723,  721,  722,  722,  723,  721,  724,
-     1350,  724,  720,  723,  721,  722,  724,    0, 1352, 1323,
-
-     1323,  724,  722,  723,  721,    0,  722, 1356, 1354,    0,
-      723,  727,  722,  722,  723,  727,  724,  725,  724,  725,
-      723,  727,  722,  724,  725,  726,    0,  726,  724,  725,
-      723,  727,  726,  729, 1356,  729,    0,  726,  727,    0,
-      729, 1323,  727,    0,  725,  729,  725,    0,  727,    0,
-        0,  725,  726,  728,  726,    0,  725,  728,  727,  726,
-      729,    0,  729,  728,  726,    0,  728,  729, 1323,  730,
-        0,  730,  729,  728,    0,  730,  730,    0,    0,    0,
-      728,  730, 1265, 1265,  728,  731,    0,  731,    0,    0,
-      728,  731,  731,  728,    0,    0,  730,  731,  730,  733,
-
-      728,  733,  730,  730,    0,    0,  733,    0,  730,    0,
-        0,  733,  731,    0,  731,    0,    0,    0,  731,  731,
-     1265,    0,    0,    0,  731,  732,  733,  734,  733,  734,
-      732,    0,  732,  733,  734,    0,  732,  732,  733,  734,
-        0,  735,  732,  735,    0,    0,    0, 1265,  735,    0,
-        0,    0,  732,  735,  734,    0,  734,  732,    0,  732,
-      736,  734,  736,  732,  732,    0,  734,  736,  735,  732,
-      735,  737,  736,  737,  738,  735,  738,    0,  737,    0,
-      735,  738,  738,  737,    0,    0,  738,  736,    0,  736,
-      739,    0,  739,    0,  736,    0,    0,  739,  737,  736,
-
-      737,  738,  739,  738,  740,  737,  740,    0,  738,  738,
-      737,  740,    0,  738,    0,    0,  740,  739,    0,  739,
-        0,    0,  741,    0,  739,    0,  741,    0,    0,  739,
-      742,  740,  741,  740,  742,  743,    0,    0,  740,  743,
-      742,    0,  741,  740,  744,  743,  744,    0,    0,  741,
-      742,  744,  744,  741,  745,  743,  744,  742,  745,  741,
-      745,  742,  743,    0,    0,  745,  743,  742,    0,  741,
-      745,  744,  743,  744,    0,    0,    0,  742,  744,  744,
-        0,  745,  743,  744,  746,  745,  746,  745,    0,  747,
-      746,  746,  745,  747,  748,    0,  746,  745,  748,  747,
-
-      749,    0,  749,  769,  748,  769,  749,    0,    0,  747,
-      769,  746,  749,  746,  748,  769,  747,  746,  746,    0,
-      747,  748,  749,  746,  750,  748,  747,  749,  750,  749,
-      769,  748,  769,  749,  750,    0,  747,  769,    0,  749,
-        0,  748,  769,  751,  750,    0,    0,  751,    0,  749,
-        0,  750,    0,  751,    0,  750,  751,  774,    0,  774,
-        0,  750,  752,  751,  774,    0,  752,    0,    0,  774,
-      751,  750,  752,    0,  751,  752,    0,  753,    0,    0,
-      751,  753,  752,  751,  774,    0,  774,  753,    0,  752,
-      751,  774,    0,  752,    0,    0,  774,  753,    0,  752,
-
-        0,    0,  752,  754,  753,    0,  755,  754,  753,  752,
-      755,  754,    0,  754,  753,  756,  755,    0,    0,  756,
-        0,    0,    0,  754,  753,  756,  755,    0,    0,    0,
-      754,    0,    0,  755,  754,  756,    0,  755,  754,    0,
-      754,  757,  756,  755,    0,  757,  756,    0,    0,    0,
-      754,  757,  756,  755,    0,  758,  759,    0,    0,  758,
-      759,  757,  756,  758,  759,    0,    0,    0,  757,  758,
-      759,    0,  757,    0,    0,    0,    0,    0,  757,  758,
-      759,    0,  758,  759,    0,  760,  758,  759,  757,  760,
-      758,  759,    0,    0,  761,  760,  758,  759,  761,    0,
-
-        0,    0,    0,    0,  761,  760,  758,  759,    0,    0,
-        0,    0,  760,  762,  761,    0,  760,  762,    0,    0,
-        0,  761,  760,  762,    0,  761,  762,    0,    0,    0,
-        0,  761,  760,  762,    0,  763,    0,    0,  764,  763,
-      762,  761,  764,  763,  762,  763,    0,    0,  764,    0,
-      762,  764,    0,  762,    0,  763,    0,    0,  764,    0,
-      762,    0,  763,    0,  765,  764,  763,  767,  765,  764,
-      763,  767,  763,  766,  765,  764,  766,  767,  764,  765,
-      766,    0,  763,    0,  765,  764,  766,  767,    0,  768,
-        0,  765,    0,  768,  767,  765,  766,  768,  767,  768,
-
-      766,  765,    0,  766,  767,    0,  765,  766,    0,  768,
-        0,  765,    0,  766,  767,  771,  768,    0,  770,  771,
-      768,    0,    0,  766,  768,  771,  768,  770,  772,  770,
-        0,    0,  772,  773,  770,  771,  768,  773,  772,  770,
-        0,    0,  771,  773,    0,  770,  771,  775,  772,    0,
-        0,  775,  771,  773,  770,  772,  770,  775,    0,  772,
-      773,  770,  771,    0,  773,  772,  770,  775,    0,  776,
-      773,    0,  777,  776,  775,  772,  777,  778,  775,  776,
-      773,  778,  777,    0,  775,    0,    0,  778,    0,  776,
-        0,  779,  777,    0,  775,  779,  776,  778,    0,  777,
-
-      776,  779,    0,  777,  778,    0,  776,    0,  778,  777,
-        0,  779,    0,  780,  778,    0,  776,  780,  779,  777,
-        0,    0,  779,  780,  778,  781,    0,  781,  779,  782,
-        0,  782,  781,  780,    0,    0,  782,  781,  779,    0,
-      780,  782,    0,    0,  780,    0,    0,    0,    0,    0,
-      780,    0,  781,    0,  781,  783,  782,  783,  782,  781,
-      780,    0,  783,  782,  781,  784,    0,  783,  782,    0,
-        0,  785,    0,  785,  784,  791,  784,    0,  785,  791,
-      785,  784,  783,  785,  783,  791,  784,    0,    0,  783,
-        0,    0,  784,    0,  783,  791,    0,  786,  785,  786,
-
-      785,  784,  791,  784,  786,  785,  791,  785,  784,  786,
-      785,    0,  791,  784,    0,    0,  787,    0,  787,  788,
-        0,    0,  791,  787,  786,  787,  786,  789,  787,  789,
-      788,  786,  788,    0,  789,  789,  786,  788,    0,  789,
-        0,    0,  788,  787,    0,  787,  788,    0,    0,    0,
-      787,    0,  787,  790,  789,  787,  789,  788,  790,  788,
-      790,  789,  789,  793,  788,  790,  789,  793,  792,  788,
-      790,  792,  792,  793,    0,    0,    0,    0,  792,    0,
-      790,    0,    0,  793,    0,  790,    0,  790,  792,    0,
-      793,    0,  790,    0,  793,  792,    0,  790,  792,  792,
-
-      793,    0,  794,  795,  796,  792,  794,  795,  796,    0,
-      793,    0,  794,  795,  796,  792,  797,    0,  794,    0,
-      797,    0,  794,  795,  796,  798,  797,  798,    0,  794,
-      795,  796,  798,  794,  795,  796,  797,  798,    0,  794,
-      795,  796,    0,  797,    0,  794,    0,  797,    0,  794,
-      795,  796,  798,  797,  798,  899,    0,  899,  900,  798,
-      900,    0,  899,  797,  798,  900,  901,  899,  901,  902,
-      900,  902,    0,  901,    0,    0,  902,    0,  901,    0,
-      901,  902,  899,    0,  899,  900,    0,  900,    0,  899,
-        0,    0,  900,  901,  899,  901,  902,  900,  902,    0,
-
-      901,    0,  903,  902,    0,  901,  903,  901,  902,    0,
-      904,  905,  903,    0,  904,  905,    0,    0,    0,    0,
-      904,  905,  903,    0,    0,    0,    0,    0,    0,  903,
-      904,  905,    0,  903,    0,    0,  906,  904,  905,  903,
-      906,  904,  905,    0,    0,    0,  906,  904,  905,  903,
-        0,  906,    0,    0,  908,  908,  906,  904,  905,  908,
-      907,    0,    0,  906,  907,  908,    0,  906,  907,    0,
-        0,    0,    0,  906,  907,  908,    0,    0,  906,    0,
-        0,  908,  908,  906,  907,    0,  908,  907,  909,    0,
-      909,  907,  908,    0,  909,  907,  910,  911,  910,  911,
-
-      909,  907,  908,  910,  911,  911,    0,    0,  910,  911,
-      909,  907,    0,    0,    0,  909,    0,  909,  912,    0,
-        0,  909,  912,  910,  911,  910,  911,  909,  912,    0,
-      910,  911,  911,    0,    0,  910,  911,  909,  912,    0,
-      913,  915,  914,  915,  913,  912,  914,    0,  915,  912,
-      913,    0,  914,  915,  916,  912,    0,    0,  916,    0,
-      913,    0,  914,    0,  916,  912,    0,  913,  915,  914,
-      915,  913,  917,  914,  916,  915,  917,  913,    0,  914,
-      915,  916,  917,    0,    0,  916,  918,  913,    0,  914,
-      918,  916,  917,    0,  918,  919,    0,  919,    0,  917,
-
-      918,  916,  919,  917,    0,    0,    0,  919,  920,  917,
-      918,    0,  920,  918,    0,    0,  921,  918,  920,  917,
-      921,  918,  919,    0,  919,    0,  921,  918,  920,  919,
-        0,    0,    0,    0,  919,  920,  921,  918,  922,  920,
-        0,    0,  922,  921,    0,  920,  923,  921,  922,    0,
-      923,    0,  924,  921,  924,  920,  923,    0,  922,  924,
-        0,  923,    0,  921,  924,  922,  923,    0,    0,  922,
-      925,    0,  926,  923,  925,  922,  926,  923,    0,  924,
-      925,  924,  926,  923,    0,  922,  924,    0,  923,    0,
-      925,  924,  926,  923,  927,    0,  928,  925,  927,  926,
-
-      928,  925,    0,  926,  927,    0,  928,  925,    0,  926,
-        0,  928,    0,    0,  927,    0,  928,  925,    0,  926,
-      929,  927,    0,  928,  929,  927,    0,  928,    0,    0,
-      929,  927,  930,  928,  930,  929,    0,    0,  928,  930,
-      929,  927,    0,  928,  930,  931,  932,  929,  932,  931,
-      933,  929,  932,    0,  933,  931,    0,  929,  932,  930,
-      933,  930,  929,    0,    0,  931,  930,  929,  932,    0,
-      933,  930,  931,  932,  934,  932,  931,  933,  934,  932,
-        0,  933,  931,    0,  934,  932,  935,  933,    0,  936,
-      935,  936,  931,  936,  934,  932,  935,  933,    0,  936,
-
-      938,  934,  938,    0,  935,  934,  935,  938,    0,  936,
-        0,  934,  938,  935,    0,  937,  936,  935,  936,  937,
-      936,  934,    0,  935,    0,  937,  936,  938,    0,  938,
-      937,  935,    0,  935,  938,  937,  936,    0,  939,  938,
-      939,  941,  937,  941,  940,  939,  937,    0,  941,  940,
-      939,  940,  937,  941,    0,    0,  940,  937,    0,    0,
-        0,  940,  937,    0,    0,  939,    0,  939,  941,    0,
-      941,  940,  939,    0,    0,  941,  940,  939,  940,  942,
-      941,  942,  943,  940,  943,  944,  942,  944,  940,  943,
-      943,  942,  944,  945,  943,  945,    0,  944,    0,    0,
-
-      945,    0,    0,    0,    0,  945,  942,    0,  942,  943,
-        0,  943,  944,  942,  944,    0,  943,  943,  942,  944,
-      945,  943,  945,  946,  944,  946,    0,  945,    0,  947,
-      946,  946,  945,  947,  948,  946,  948,    0,    0,  947,
-        0,  948,    0,    0,  948,    0,  948,    0,    0,  947,
-      946,    0,  946,    0,    0,    0,  947,  946,  946,    0,
-      947,  948,  946,  948,    0,  949,  947,  949,  948,    0,
-        0,  948,  949,  948,    0,    0,  947,  949,  950,  951,
-      950,  951,    0,    0,    0,  950,  951,    0,    0,    0,
-      950,  951,  949,    0,  949,    0,    0,    0,    0,  949,
-
-        0,  952,    0,    0,  949,  950,  951,  950,  951,  952,
-        0,  952,  950,  951,    0,    0,  952,  950,  951,    0,
-      953,  952,  953,  954,    0,  954,    0,  953,  952,    0,
-      954,    0,  953,    0,    0,  954,  952,    0,  952,    0,
-        0,  955,    0,  952,    0,  955,    0,  953,  952,  953,
-      954,  955,  954,  956,  953,  956,  957,  954,    0,  953,
-      956,  955,  954,    0,    0,  956,    0,  957,  955,  957,
-        0,    0,  955,    0,  957,    0,    0,    0,  955,  957,
-      956,    0,  956,  957,    0,    0,    0,  956,  955,    0,
-        0,  958,  956,  958,  957,    0,  957,    0,  958,  958,
-
-      960,  957,  960,  958,    0,  959,  957,  960,  960,  959,
-        0,  959,  960,    0,    0,    0,  959,    0,  958,    0,
-      958,  959,    0,    0,    0,  958,  958,  960,    0,  960,
-      958,    0,  959,    0,  960,  960,  959,    0,  959,  960,
-      961,    0,  961,  959,  962,  963,  962,  961,  959,  963,
-        0,  962,  961,    0,    0,  963,  962,    0,    0,    0,
-      964,    0,    0,    0,  964,  963,    0,  961,    0,  961,
-      964,  962,  963,  962,  961,  964,  963,    0,  962,  961,
-      964,    0,  963,  962,  965,  965,  966,  964,    0,  965,
-      966,  964,  963,    0,    0,  965,  966,  964,    0,  966,
-
-        0,    0,  964,    0,    0,  965,  966,  964,    0,    0,
-        0,  965,  965,  966,  967,  968,  965,  966,  967,  968,
-        0,    0,  965,  966,  967,  968,  966,  967,    0,    0,
-        0,    0,  965,  966,  967,  968,    0,    0,    0,  969,
-      970,  967,  968,  969,  970,  967,  968,    0,    0,  969,
-      970,  967,  968,  971,  967,    0,    0,  971,    0,  969,
-      970,  967,  968,  971,  973,  972,  969,  970,  973,  972,
-      969,  970,  973,  971,    0,  972,  969,  970,  973,    0,
-      971,    0,    0,    0,  971,  972,  969,  970,  973,  974,
-      971,  973,  972,  974,  976,  973,  972,  974,  976,  973,
-
-      971,    0,  972,  974,  976,  973,  975,  975,    0,  976,
-        0,  975,  972,  974,  976,  973,  974,  975,    0,  977,
-      974,  976,  978,  977,  974,  976,  978,  975,    0,  977,
-      974,  976,  978,  975,  975,    0,  976,    0,  975,  977,
-      974,  976,  978,    0,  975,    0,  977,  979,  979,  978,
-      977,    0,  979,  978,  975,    0,  977,  980,  979,  978,
-      981,  980,  981,    0,    0,  980,  977,  981,  979,  978,
-        0,  980,  981,    0,  979,  979,    0,    0,    0,  979,
-        0,  980,    0,    0,  980,  979,    0,  981,  980,  981,
-        0,    0,  980,    0,  981,  979,    0,    0,  980,  981,
-
-      982,    0,  982,  983,    0,  983,  982,  982,  980,    0,
-      983,  983,  982,  984,    0,  983,  986,    0,  986,    0,
-        0,    0,    0,  986,  984,    0,  984,  982,  986,  982,
-      983,  984,  983,  982,  982,    0,  984,  983,  983,  982,
-      984,  985,  983,  986,    0,  986,    0,    0,    0,    0,
-      986,  984,  985,  984,  985,  986,    0,    0,  984,  985,
-      987,    0,  987,  984,  985,  988,    0,  987,  985,  988,
-      990,    0,  987,    0,  990,  988,    0,  989,  989,  985,
-      990,  985,  989,    0,    0,  988,  985,  987,  989,  987,
-      990,  985,  988,    0,  987,    0,  988,  990,  989,  987,
-
-        0,  990,  988,    0,  989,  989,  991,  990,    0,  989,
-      991,  992,  988,  992,    0,  989,  991,  990,  992,    0,
-        0,  993,    0,  992,    0,  989,  991,    0,    0,    0,
-        0,    0,  993,  991,  993,    0,    0,  991,  992,  993,
-      992,    0,    0,  991,  993,  992,    0,  994,  993,    0,
-      992,    0,    0,  991,    0,  995,    0,  995,  994,  993,
-      994,  993,  995,    0,    0,  994,  993,  995,    0,    0,
-      994,  993,    0,    0,  994,    0,  996,    0,  996,    0,
-        0,    0,  995,  996,  995,  994, 1073,  994,  996,  995,
-     1073, 1074,  994,    0,  995, 1074, 1073,  994,    0,    0,
-
-     1075, 1074, 1075,  996,    0,  996, 1073, 1075,    0,    0,
-      996, 1074, 1075, 1073, 1076,  996, 1076, 1073, 1074,    0,
-        0, 1076, 1074, 1073,    0,    0, 1076, 1075, 1074, 1075,
-     1077,    0, 1077, 1073, 1075,    0, 1078, 1077, 1074, 1075,
-     1078, 1076, 1077, 1076,    0, 1079, 1078,    0, 1076, 1079,
-        0,    0,    0, 1076,    0, 1079, 1078, 1077,    0, 1077,
-     1079,    0,    0, 1078, 1077, 1079,    0, 1078, 1080, 1077,
-     1080,    0, 1079, 1078,    0, 1080, 1079, 1081,    0, 1081,
-     1080,    0, 1079, 1078, 1081,    0, 1082, 1079, 1082, 1081,
-        0,    0, 1079, 1082,    0, 1080,    0, 1080, 1082,    0,
-
-        0,    0, 1080,    0, 1081,    0, 1081, 1080,    0,    0,
-     1083, 1081, 1083, 1082,    0, 1082, 1081, 1083,    0, 1084,
-     1082, 1084, 1083,    0,    0, 1082, 1084, 1084, 1085, 1085,
-     1085, 1084,    0,    0,    0, 1085,    0, 1083,    0, 1083,
-     1085,    0,    0,    0, 1083,    0, 1084,    0, 1084, 1083,
-     1086,    0,    0, 1084, 1084, 1085, 1085, 1085, 1084, 1086,
-        0, 1086, 1085, 1087,    0, 1087, 1086, 1085,    0,    0,
-     1087, 1086, 1088,    0, 1088, 1087,    0, 1086,    0, 1088,
-     1088,    0,    0,    0, 1088,    0, 1086,    0, 1086,    0,
-     1087,    0, 1087, 1086,    0,    0,    0, 1087, 1086, 1088,
-
-        0, 1088, 1087, 1089, 1090, 1089, 1088, 1088,    0,    0,
-     1089, 1088,    0,    0, 1090, 1089, 1090, 1091,    0, 1091,
-        0, 1090,    0,    0, 1091,    0, 1090,    0,    0, 1091,
-     1089, 1090, 1089,    0,    0,    0, 1092, 1089,    0,    0,
-        0, 1090, 1089, 1090, 1091, 1092, 1091, 1092, 1090,    0,
-        0, 1091, 1092, 1090,    0,    0, 1091, 1092, 1093, 1094,
-     1093, 1094,    0, 1092,    0, 1093, 1094,    0,    0,    0,
-     1093, 1094, 1092,    0, 1092,    0,    0,    0,    0, 1092,
-        0,    0,    0,    0, 1092, 1093, 1094, 1093, 1094, 1095,
-        0, 1095, 1093, 1094,    0, 1097, 1095, 1093, 1094, 1097,
-
-     1096, 1095, 1096,    0, 1098, 1097,    0, 1096, 1098,    0,
-        0,    0, 1096,    0, 1098, 1097, 1095,    0, 1095,    0,
-        0,    0, 1097, 1095, 1098,    0, 1097, 1096, 1095, 1096,
-        0, 1098, 1097,    0, 1096, 1098, 1099,    0, 1099, 1096,
-     1101, 1098, 1097, 1099, 1101, 1100,    0, 1100, 1099,    0,
-     1101, 1098, 1100, 1100, 1102,    0, 1102, 1100,    0,    0,
-     1101, 1102,    0, 1099,    0, 1099, 1102, 1101,    0,    0,
-     1099, 1101, 1100,    0, 1100, 1099,    0, 1101,    0, 1100,
-     1100, 1102,    0, 1102, 1100,    0,    0, 1101, 1102, 1103,
-     1104, 1103, 1104, 1102,    0,    0, 1103, 1104, 1105,    0,
-
-     1105, 1103, 1104,    0,    0, 1105,    0,    0,    0,    0,
-     1105,    0,    0,    0,    0,    0, 1103, 1104, 1103, 1104,
-        0,    0,    0, 1103, 1104, 1105,    0, 1105, 1103, 1104,
-        0, 1106, 1105, 1106, 1107,    0, 1107, 1105, 1106,    0,
-     1108, 1107, 1108, 1106,    0,    0, 1107, 1108,    0,    0,
-        0,    0, 1108,    0,    0,    0,    0,    0, 1106,    0,
-     1106, 1107,    0, 1107,    0, 1106,    0, 1108, 1107, 1108,
-     1106,    0,    0, 1107, 1108, 1109, 1110, 1109,    0, 1108,
-     1110, 1109, 1109,    0,    0,    0, 1110, 1109,    0,    0,
-     1112, 1111,    0,    0, 1112, 1111, 1110,    0,    0, 1111,
-
-     1112,    0, 1109, 1110, 1109, 1111,    0, 1110, 1109, 1109,
-     1112,    0,    0, 1110, 1109, 1111,    0, 1112, 1111,    0,
-     1113, 1112, 1111, 1110, 1113,    0, 1111, 1112,    0, 1114,
-     1113, 1114, 1111,    0,    0,    0, 1114, 1112,    0,    0,
-     1113, 1114, 1111, 1115,    0, 1115,    0, 1113,    0,    0,
-     1115, 1113, 1116,    0, 1116, 1115, 1114, 1113, 1114, 1116,
-        0,    0,    0, 1114, 1116,    0,    0, 1113, 1114,    0,
-     1115, 1117, 1115, 1117, 1118,    0,    0, 1115, 1117, 1116,
-        0, 1116, 1115, 1117,    0, 1118, 1116, 1118,    0,    0,
-        0, 1116, 1118,    0,    0,    0,    0, 1118, 1117,    0,
-
-     1117, 1118,    0,    0, 1119, 1117, 1119,    0,    0,    0,
-     1117, 1119, 1118, 1120, 1118, 1120, 1119,    0,    0, 1118,
-     1120, 1120,    0,    0, 1118, 1120, 1121,    0,    0,    0,
-     1121, 1119,    0, 1119,    0, 1122, 1121,    0, 1119, 1122,
-     1120,    0, 1120, 1119,    0, 1122, 1121, 1120, 1120, 1125,
-     1123, 1125, 1120, 1121, 1123, 1122, 1125, 1121,    0,    0,
-     1123, 1125, 1122, 1121, 1124,    0, 1122,    0, 1124,    0,
-     1123,    0, 1122, 1121, 1124,    0, 1125, 1123, 1125,    0,
-        0, 1123, 1122, 1125, 1124,    0,    0, 1123, 1125, 1127,
-        0, 1124, 1126,    0, 1126, 1124,    0, 1123, 1127, 1126,
-
-     1127, 1124,    0,    0, 1126, 1127,    0,    0,    0,    0,
-     1127, 1124,    0, 1128,    0,    0, 1127,    0,    0, 1126,
-        0, 1126, 1128,    0, 1128, 1127, 1126, 1127,    0, 1128,
-        0, 1126, 1127,    0, 1128,    0, 1129, 1127, 1129,    0,
-     1128,    0,    0, 1129,    0, 1130,    0, 1130, 1129, 1128,
-        0, 1128, 1130,    0,    0,    0, 1128, 1130,    0,    0,
-        0, 1128,    0, 1129, 1131, 1129, 1131,    0,    0,    0,
-     1129, 1131, 1130,    0, 1130, 1129, 1131,    0, 1132, 1130,
-     1132,    0,    0,    0, 1130, 1132,    0, 1133,    0, 1133,
-     1132, 1131,    0, 1131, 1133,    0,    0,    0, 1131, 1133,
-
-        0,    0,    0, 1131,    0, 1132, 1134, 1132, 1134,    0,
-        0,    0, 1132, 1134, 1133,    0, 1133, 1132, 1134,    0,
-     1135, 1133, 1135, 1136,    0,    0, 1133, 1135,    0,    0,
-        0,    0, 1135, 1134, 1136, 1134, 1136,    0,    0,    0,
-     1134, 1136, 1137,    0,    0, 1134, 1136, 1135,    0, 1135,
-     1136,    0,    0, 1137, 1135, 1137,    0,    0,    0, 1135,
-     1137, 1136,    0, 1136,    0, 1137,    0, 1138, 1136, 1137,
-        0,    0,    0, 1136,    0,    0, 1138, 1139, 1138, 1139,
-     1137,    0, 1137, 1138, 1139, 1139,    0, 1137, 1138, 1139,
-        0,    0, 1137,    0, 1138,    0,    0,    0,    0, 1140,
-
-        0,    0,    0, 1138, 1139, 1138, 1139, 1140,    0, 1140,
-     1138, 1139, 1139,    0, 1140, 1138, 1139,    0, 1141, 1140,
-     1141, 1142,    0, 1142,    0, 1141, 1140,    0, 1142,    0,
-     1141,    0,    0, 1142, 1140,    0, 1140, 1143,    0, 1143,
-        0, 1140,    0,    0, 1143, 1141, 1140, 1141, 1142, 1143,
-     1142, 1144, 1141, 1144,    0, 1142,    0, 1141, 1144,    0,
-     1142,    0,    0, 1144, 1143,    0, 1143, 1145,    0, 1145,
-     1146, 1143, 1146, 1145, 1145,    0, 1143, 1146, 1144, 1145,
-     1144, 1194, 1146, 1194,    0, 1144,    0,    0, 1194,    0,
-     1144,    0,    0, 1194, 1145,    0, 1145, 1146,    0, 1146,
-
-     1145, 1145,    0,    0, 1146, 1195, 1145, 1195, 1194, 1146,
-     1194, 1196, 1195, 1196, 1197, 1194, 1197, 1195, 1196,    0,
-     1194, 1197,    0, 1196,    0,    0, 1197, 1198,    0,    0,
-        0, 1198, 1195,    0, 1195,    0,    0, 1198, 1196, 1195,
-     1196, 1197, 1199, 1197, 1195, 1196, 1199, 1198, 1197,    0,
-     1196, 1200, 1199, 1197, 1198, 1200, 1201, 1201, 1198,    0,
-        0, 1200, 1199,    0, 1198,    0, 1202,    0,    0, 1199,
-     1202, 1200,    0, 1199, 1198,    0, 1202,    0, 1200, 1199,
-        0, 1201, 1200,    0,    0, 1201, 1202,    0, 1200, 1199,
-        0, 1201, 1203, 1202,    0, 1204, 1203, 1202, 1200, 1204,
-
-     1203, 1201,    0, 1202,    0, 1204, 1203,    0, 1201,    0,
-     1205,    0, 1201, 1202, 1205, 1204, 1203,    0, 1201, 1203,
-     1205,    0, 1204, 1203,    0, 1206, 1204, 1203, 1201, 1206,
-     1205,    0, 1204, 1203, 1207, 1206,    0, 1205, 1207,    0,
-        0, 1205, 1204, 1203, 1207, 1206, 1212, 1205, 1212, 1207,
-        0,    0, 1206, 1212, 1207,    0, 1206, 1205, 1212, 1209,
-        0, 1207, 1206, 1209, 1208, 1207, 1208,    0, 1208, 1209,
-        0, 1207, 1206, 1212, 1208, 1212, 1207,    0, 1210, 1209,
-     1212, 1207, 1210,    0, 1208, 1212, 1209, 1213, 1210, 1213,
-     1209, 1208,    0, 1208, 1213, 1208, 1209,    0, 1210, 1213,
-
-     1211, 1208,    0,    0, 1211, 1210, 1209,    0,    0, 1210,
-     1211, 1208,    0,    0, 1213, 1210, 1213, 1214,    0, 1214,
-     1211, 1213,    0,    0, 1214, 1210, 1213, 1211, 1216, 1214,
-     1216, 1211, 1215,    0,    0, 1216,    0, 1211,    0,    0,
-     1216, 1215,    0, 1215, 1214,    0, 1214, 1211, 1215,    0,
-        0, 1214,    0, 1215,    0, 1216, 1214, 1216,    0, 1215,
-        0,    0, 1216,    0, 1217,    0, 1217, 1216, 1215,    0,
-     1215, 1217, 1218,    0, 1218, 1215, 1217, 1220,    0, 1218,
-     1215, 1220, 1221, 1219, 1218, 1219, 1221, 1220,    0, 1219,
-     1219, 1217, 1221, 1217,    0, 1219,    0, 1220, 1217, 1218,
-
-        0, 1218, 1221, 1217, 1220,    0, 1218,    0, 1220, 1221,
-     1219, 1218, 1219, 1221, 1220,    0, 1219, 1219, 1222, 1221,
-     1222, 1223, 1219, 1223, 1220, 1222,    0,    0, 1223, 1221,
-     1222,    0, 1224, 1223, 1224,    0,    0,    0,    0, 1224,
-        0,    0, 1225,    0, 1224, 1222,    0, 1222, 1223,    0,
-     1223, 1225, 1222, 1225,    0, 1223,    0, 1222, 1225, 1224,
-     1223, 1224,    0, 1225,    0, 1226, 1224, 1226,    0, 1225,
-        0, 1224, 1226, 1226,    0,    0,    0, 1226, 1225,    0,
-     1225,    0,    0, 1227, 1227, 1225, 1227,    0,    0,    0,
-     1225, 1227, 1226,    0, 1226, 1228, 1227, 1228,    0, 1226,
-
-     1226,    0, 1228,    0, 1226,    0,    0, 1228,    0,    0,
-     1227, 1227,    0, 1227, 1229,    0, 1229,    0, 1227,    0,
-        0, 1229, 1228, 1227, 1228, 1230, 1229, 1230, 1231, 1228,
-     1231,    0, 1230, 1230, 1228, 1231,    0, 1230,    0,    0,
-     1231, 1229,    0, 1229, 1232,    0, 1232,    0, 1229,    0,
-     1232, 1232, 1230, 1229, 1230, 1231, 1232, 1231,    0, 1230,
-     1230,    0, 1231,    0, 1230,    0,    0, 1231, 1233, 1233,
-     1233, 1232,    0, 1232, 1234, 1233, 1234, 1232, 1232,    0,
-     1233, 1234, 1234, 1232, 1235,    0, 1234,    0, 1235,    0,
-        0,    0,    0,    0, 1235, 1233, 1233, 1233,    0,    0,
-
-        0, 1234, 1233, 1234, 1235,    0, 1236, 1233, 1234, 1234,
-     1236, 1235,    0, 1234, 1237, 1235, 1236,    0, 1237, 1238,
-        0, 1235,    0, 1238, 1237,    0, 1236,    0,    0, 1238,
-        0, 1235, 1266, 1236, 1237,    0, 1266, 1236,    0, 1238,
-        0, 1237, 1266, 1236, 1264, 1237, 1238,    0, 1264,    0,
-     1238, 1237, 1266, 1236, 1264,    0, 1238, 1264, 1267, 1266,
-        0, 1237, 1267, 1266, 1264,    0, 1238,    0, 1267, 1266,
-     1268, 1264, 1269, 1267, 1268, 1264, 1269,    0, 1267, 1266,
-     1268, 1264, 1269,    0, 1264, 1267,    0,    0,    0, 1267,
-     1268, 1264, 1269,    0, 1270, 1267,    0, 1268, 1270, 1269,
-
-     1267, 1268,    0, 1269, 1270, 1267, 1271, 1268, 1271, 1269,
-     1271,    0,    0,    0, 1270,    0, 1271, 1268,    0, 1269,
-        0, 1270,    0,    0, 1272, 1270, 1271,    0, 1272,    0,
-        0, 1270, 1273, 1271, 1272, 1271, 1273, 1271,    0, 1272,
-        0, 1270, 1273, 1271, 1272,    0,    0,    0,    0,    0,
-     1274, 1272, 1273, 1271, 1274, 1272,    0,    0,    0, 1273,
-     1274, 1272,    0, 1273,    0,    0, 1272,    0,    0, 1273,
-     1274, 1272, 1275,    0,    0,    0, 1275, 1274,    0, 1273,
-        0, 1274, 1275, 1277, 1276, 1275, 1276, 1274, 1277,    0,
-     1277, 1276, 1275,    0, 1278, 1277, 1276, 1274, 1278, 1275,
-
-     1277,    0,    0, 1275, 1278,    0,    0,    0,    0, 1275,
-     1277, 1276, 1275, 1276, 1278, 1277, 1279, 1277, 1276, 1275,
-     1279, 1278, 1277, 1276, 1280, 1278, 1279, 1277, 1280, 1281,
-        0, 1278,    0, 1281, 1280,    0, 1279,    0, 1282, 1281,
-        0, 1278, 1282, 1279, 1280,    0,    0, 1279, 1282, 1281,
-        0, 1280,    0, 1279,    0, 1280, 1281,    0, 1282,    0,
-     1281, 1280,    0, 1279,    0, 1282, 1281,    0, 1283, 1282,
-     1284, 1280, 1283, 1285, 1284, 1282, 1281, 1285, 1283, 1283,
-     1284, 1286, 1286, 1285,    0, 1282, 1286,    0, 1283,    0,
-     1284,    0, 1286, 1285,    0, 1283,    0, 1284,    0, 1283,
-
-     1285, 1284, 1286,    0, 1285, 1283, 1283, 1284, 1286, 1286,
-     1285, 1302, 1302, 1286, 1304, 1283,    0, 1284, 1304, 1286,
-     1285,    0, 1305, 1306, 1304,    0, 1305, 1306,    0, 1286,
-        0,    0, 1305, 1306, 1304,    0, 1302,    0,    0,    0,
-     1302, 1304, 1305, 1306,    0, 1304, 1302,    0,    0, 1305,
-     1306, 1304,    0, 1305, 1306,    0, 1302,    0,    0, 1305,
-     1306, 1304,    0, 1302, 1307,    0, 1307, 1302,    0, 1305,
-     1306, 1307, 1308, 1302, 1308, 1309, 1307, 1309, 1310, 1308,
-     1310,    0, 1309, 1302, 1308, 1310,    0, 1309,    0,    0,
-     1310, 1307,    0, 1307,    0,    0,    0,    0, 1307, 1308,
-
-        0, 1308, 1309, 1307, 1309, 1310, 1308, 1310, 1311, 1309,
-     1311, 1308, 1310,    0, 1309, 1311, 1312, 1310, 1312,    0,
-     1311, 1313,    0, 1312,    0, 1313, 1314,    0, 1312, 1325,
-     1314, 1313,    0, 1325, 1326, 1311, 1314, 1311, 1326, 1325,
-        0, 1313, 1311, 1312, 1326, 1312, 1314, 1311, 1313, 1325,
-     1312,    0, 1313, 1314, 1326, 1312, 1325, 1314, 1313,    0,
-     1325, 1326,    0, 1314,    0, 1326, 1325,    0, 1313,    0,
-     1327, 1326,    0, 1314, 1327, 1328, 1325, 1328,    0,    0,
-     1327, 1326, 1328,    0, 1336,    0, 1336, 1328,    0,    0,
-     1327, 1336,    0,    0,    0,    0, 1336, 1327,    0,    0,
-
-        0, 1327, 1328,    0, 1328,    0,    0, 1327,    0, 1328,
-        0, 1336,    0, 1336, 1328,    0,    0, 1327, 1336,    0,
-        0,    0,    0, 1336, 1368, 1368, 1368, 1368, 1368, 1369,
-        0,    0, 1369, 1369, 1371, 1371, 1371,    0, 1371, 1372,
-        0, 1372, 1372, 1372, 1373,    0, 1373, 1373, 1373, 1374,
-        0, 1374, 1374, 1374, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367
+        1,    1,    1,    1,    1,    1,    7,    7,    8,    8,
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   13,   15,   15,   15,   15,   15,   15,   15,   15,
+
+       15,   15,   15,   16,   16,   19,   20,   19,   25,   26,
+       20,   21,   28,   19,   25,   19,   20,   26,   21,   19,
+       19,   29,   39,   26,   39,   21,   20,   39,   21,  691,
+       42,   21,   19,   20,   19,   25,   26,   20,   21,   28,
+       19,   25,   19,   20,   26,   21,   19,   19,   29,   39,
+       26,   39,   21,   20,   39,   21,   22,   42,   21,   23,
+       22,   23,   46,   46,   22,   30,   23,   59,   31,   30,
+       22,   23,   31,   22,  686,   30,  586,  586,   31,   41,
+       41,   60,  685,   22,  649,  649,   23,   22,   23,  683,
+       32,   22,   30,   23,   59,   31,   30,   22,   23,   31,
+
+       22,   24,   30,   34,   32,   31,   41,   41,   60,   24,
+       32,   32,   24,   63,   34,   24,   27,   32,   24,  681,
+       34,   24,   27,   27,   27,   40,   64,  679,   24,   27,
+       34,   32,  677,   40,  675,  673,   24,   32,   32,   24,
+       63,   34,   24,   27,   66,   24,   33,   34,   24,   27,
+       27,   27,   40,   64,   33,   36,   27,   61,   33,   36,
+       40,   33,   33,   36,   62,   61,   67,   62,   70,   36,
+      669,   66,  662,   33,   73,  648,   76,   76,  624,   77,
+      578,   33,   36,  503,   61,   33,   36,  404,   33,   33,
+       36,   62,   61,   67,   62,   70,   36,   37,   78,   37,
+
+       79,   73,   37,   76,   76,   37,   77,   37,  276,   37,
+       37,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   65,   65,   69,   37,   78,   37,   79,  149,   37,
+       69,   81,   37,   83,   37,   65,   37,   37,   38,   71,
+       71,   71,   38,   71,   72,   38,   38,   84,   65,   65,
+       69,   85,   38,   87,   72,   38,   50,   69,   81,   48,
+       83,   45,   65,   43,   18,   38,   71,   71,   71,   38,
+       71,   72,   38,   38,   84,   17,    9,    5,   85,   38,
+       87,   72,   38,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   53,   53,   53,   53,   53,   53,   53,
+
+       53,   53,   53,   53,   74,   75,   88,   75,   86,   74,
+       75,   80,   80,   82,   86,   82,   75,   89,   90,   82,
+       92,   91,   93,   75,   91,   95,   82,   96,    4,   98,
+       82,   74,   75,   88,   75,   86,   74,   75,   80,   80,
+       82,   86,   82,   75,   89,   90,   82,   92,   91,   93,
+       75,   91,   95,   82,   96,   97,   98,   82,   99,  100,
+      101,  102,  103,  102,  103,   97,  104,  105,  106,  107,
+       97,   97,  109,  108,  110,  103,  108,  111,  113,  114,
+      115,  116,   97,  117,  119,   99,  100,  101,  102,  103,
+      102,  103,   97,  104,  105,  106,  107,   97,   97,  109,
+
+      108,  110,  103,  108,  111,  113,  114,  115,  116,  118,
+      117,  119,  120,  118,  121,  122,  123,  120,  124,  125,
+      126,  127,  128,  129,  130,  120,  122,  124,    3,  132,
+      120,  133,  134,  125,    0,  124,  118,  137,  138,  120,
+      118,  121,  122,  123,  120,  124,  125,  126,  127,  128,
+      129,  130,  120,  122,  124,  131,  132,  120,  133,  134,
+      125,  135,  124,  136,  137,  138,  131,  140,  139,  141,
+      136,  142,  143,  136,  139,  152,  154,  155,  157,  159,
+      140,  135,  131,    0,    0,    0,    0,    0,  135,    0,
+      136,    0,  160,  131,  140,  139,  141,  136,  142,  143,
+
+      136,  139,  152,  154,  155,  157,  159,  140,  135,  150,
+      150,  150,  150,  150,  150,  150,  150,  150,  150,  160,
+      161,  162,  163,  164,  165,  166,  165,  167,  168,  169,
+      170,  171,  172,  173,  174,  175,  176,  177,  178,    0,
+      180,  165,  181,  182,  183,  184,  185,  161,  162,  163,
+      164,  165,  166,  165,  167,  168,  169,  170,  171,  172,
+      173,  174,  175,  176,  177,  178,  179,  180,  165,  181,
+      182,  183,  184,  185,  186,  188,  189,  190,  191,  192,
+      193,  179,  194,  195,  196,  197,  198,  199,  200,  201,
+      202,  203,  204,  179,  198,  205,  206,  207,  208,  209,
+
+      210,  186,  188,  189,  190,  191,  192,  193,  179,  194,
+      195,  196,  197,  198,  199,  200,  201,  202,  203,  204,
+      211,  198,  205,  206,  207,  208,  209,  210,  212,  213,
+      214,  216,  217,  218,  219,  220,  221,  222,  212,  223,
+      224,  225,  227,  228,  229,  220,  230,  211,  231,  232,
+      233,  235,    0,  237,  238,  212,  213,  214,  216,  217,
+      218,  219,  220,  221,  222,  212,  223,  224,  225,  227,
+      228,  229,  220,  230,  234,  231,  232,  233,  235,  236,
+      237,  238,  239,  240,  241,  242,  243,  244,  245,  246,
+      247,  248,  236,  234,  250,  251,  252,  253,  254,  255,
+
+      256,  234,  257,  258,  259,  260,  236,  262,  264,  239,
+      240,  241,  242,  243,  244,  245,  246,  247,  248,  236,
+      234,  250,  251,  252,  253,  254,  255,  256,  263,  257,
+      258,  259,  260,  266,  262,  264,  265,  263,  265,  267,
+      268,  269,  270,  271,  272,  273,  274,  275,  277,  273,
+      278,  279,  280,  281,  282,  263,  283,  284,  285,  287,
+      266,  290,  291,  265,  263,  265,  267,  268,  269,  270,
+      271,  272,  273,  274,  275,  277,  273,  278,  279,  280,
+      281,  282,  292,  283,  284,  285,  287,  293,  290,  291,
+      295,  296,  297,  298,  300,  301,  302,  303,  304,  305,
+
+      306,  307,  308,  311,  312,  313,  314,  315,  316,  292,
+      317,  318,  320,  321,  293,  322,  323,  295,  296,  297,
+      298,  300,  301,  302,  303,  304,  305,  306,  307,  308,
+      311,  312,  313,  314,  315,  316,  326,  317,  318,  320,
+      321,  327,  322,  323,  329,  331,  332,  333,  334,  335,
+      336,  337,  339,  343,  345,  346,  348,  349,  349,  350,
+      351,  352,  337,  326,  354,  355,  356,  357,  327,  359,
+      360,  329,  331,  332,  333,  334,  335,  336,  337,  339,
+      343,  345,  346,  348,  349,  349,  350,  351,  352,  337,
+      362,  354,  355,  356,  357,  363,  359,  360,  364,  365,
+
+      367,  368,  369,  370,  371,  373,  374,  375,  376,  379,
+      380,  381,  382,  383,  386,  387,  389,  362,  390,  391,
+      392,  393,  363,  394,  395,  364,  365,  367,  368,  369,
+      370,  371,  373,  374,  375,  376,  379,  380,  381,  382,
+      383,  386,  387,  389,  396,  390,  391,  392,  393,  397,
+      394,  395,  399,  401,  403,  407,  409,  411,  412,  413,
+      414,  415,  416,  417,  418,  419,  421,  422,  423,  424,
+      425,  396,  426,  428,  429,  430,  397,  431,  432,  399,
+      401,  403,  407,  409,  411,  412,  413,  414,  415,  416,
+      417,  418,  419,  421,  422,  423,  424,  425,  433,  426,
+
+      428,  429,  430,  434,  431,  432,  435,  436,  437,  438,
+      441,  442,  443,  444,  445,  446,  449,  452,  453,  454,
+      455,  458,  454,  461,  462,  433,  463,  464,  465,  466,
+      434,  469,  470,  435,  436,  437,  438,  441,  442,  443,
+      444,  445,  446,  449,  452,  453,  454,  455,  458,  454,
+      461,  462,  471,  463,  464,  465,  466,  472,  469,  470,
+      473,  475,  476,  477,  479,  480,  481,  482,  484,  485,
+      486,  487,  488,  489,  490,  491,  492,  494,  495,  471,
+      496,  498,  499,  500,  472,  504,  506,  473,  475,  476,
+      477,  479,  480,  481,  482,  484,  485,  486,  487,  488,
+
+      489,  490,  491,  492,  494,  495,  508,  496,  498,  499,
+      500,  509,  504,  506,  510,  511,  513,  515,  516,  517,
+      518,  519,  521,  523,  525,  528,  530,  531,  532,  533,
+      540,  541,  542,  508,  545,  547,  549,  551,  509,  552,
+      553,  510,  511,  513,  515,  516,  517,  518,  519,  521,
+      523,  525,  528,  530,  531,  532,  533,  540,  541,  542,
+      554,  545,  547,  549,  551,  555,  552,  553,  556,  558,
+      559,  560,  561,  563,  565,  567,  568,  569,  570,  571,
+      576,  577,  583,  587,  588,  591,  592,  554,  593,  597,
+      600,  601,  555,  604,  605,  556,  558,  559,  560,  561,
+
+      563,  565,  567,  568,  569,  570,  571,  576,  577,  583,
+      587,  588,  591,  592,  606,  593,  597,  600,  601,  607,
+      604,  605,  610,  611,  612,  615,  617,  618,  619,  620,
+      621,  625,  626,  626,  628,  632,  633,  636,  637,  638,
+      639,  606,  643,    0,  644,  645,  607,  647,  650,  610,
+      611,  612,  615,  617,  618,  619,  620,  621,  625,  651,
+      654,  628,  632,  633,  636,  637,  638,  639,  657,  643,
+      626,  644,  645,  660,  647,  650,  663,  663,  664,  668,
+      670,  674,  676,  678,  680,  682,  651,  654,    0,    0,
+        0,    0,    0,    0,    0,  657,    0,  626,    0,    0,
+
+      660,    0,    0,    0,    0,  664,  668,  670,  674,  676,
+      678,  680,  682,    0,    0,    0,    0,    0,  663,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,  663,  689,  689,  689,  689,
+      689,  690,    0,    0,  690,  690,  692,  692,  692,    0,
+      692,  693,    0,  693,  693,  693,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
+      688,  688,  688
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -3114,7 +1243,7 @@ static const flex_int16_t yy_chk[9032] =
 
 static thread_local std::stringstream strbuf;
 
-#line 3118 "flex_lexer.cpp"
+#line 1247 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -3124,15 +1253,13 @@ static thread_local std::stringstream strbuf;
 /* performance tweeks */
 /* other flags */
 /* %option nodefault */
-
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 3132 "flex_lexer.cpp"
+#line 1260 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
-#define COMMENT 2
 
 #ifndef YY_NO_UNISTD_H
 /* Special case for "unistd.h", since it is non-ANSI. We include it way
@@ -3412,10 +1539,10 @@ YY_DECL
 		}
 
 	{
-#line 57 "flex_lexer.l"
+#line 55 "flex_lexer.l"
 
 
-#line 3419 "flex_lexer.cpp"
+#line 1546 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -3442,13 +1569,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 1368 )
+				if ( yy_current_state >= 689 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 1367 );
+		while ( yy_current_state != 688 );
 		yy_cp = yyg->yy_last_accepting_cpos;
 		yy_current_state = yyg->yy_last_accepting_state;
 
@@ -3470,899 +1597,888 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 59 "flex_lexer.l"
-BEGIN(COMMENT);
+#line 57 "flex_lexer.l"
+/* skip comment until the end of the line */;
 	YY_BREAK
 case 2:
+/* rule 2 can match eol */
 YY_RULE_SETUP
-#line 60 "flex_lexer.l"
-/* skipping comment content until a end of line is read */;
+#line 59 "flex_lexer.l"
+/* skip whitespace */;
 	YY_BREAK
 case 3:
-/* rule 3 can match eol */
 YY_RULE_SETUP
 #line 61 "flex_lexer.l"
-BEGIN(INITIAL);
-	YY_BREAK
-case 4:
-/* rule 4 can match eol */
-YY_RULE_SETUP
-#line 63 "flex_lexer.l"
-/* skip whitespace */;
-	YY_BREAK
-case 5:
-YY_RULE_SETUP
-#line 65 "flex_lexer.l"
 TOKEN(ADD)
 	YY_BREAK
-case 6:
+case 4:
 YY_RULE_SETUP
-#line 66 "flex_lexer.l"
+#line 62 "flex_lexer.l"
 TOKEN(AFTER)
 	YY_BREAK
-case 7:
+case 5:
 YY_RULE_SETUP
-#line 67 "flex_lexer.l"
+#line 63 "flex_lexer.l"
 TOKEN(ALL)
 	YY_BREAK
-case 8:
+case 6:
 YY_RULE_SETUP
-#line 68 "flex_lexer.l"
+#line 64 "flex_lexer.l"
 TOKEN(ALTER)
 	YY_BREAK
-case 9:
+case 7:
 YY_RULE_SETUP
-#line 69 "flex_lexer.l"
+#line 65 "flex_lexer.l"
 TOKEN(ANALYZE)
 	YY_BREAK
-case 10:
+case 8:
 YY_RULE_SETUP
-#line 70 "flex_lexer.l"
+#line 66 "flex_lexer.l"
 TOKEN(AND)
 	YY_BREAK
-case 11:
+case 9:
 YY_RULE_SETUP
-#line 71 "flex_lexer.l"
+#line 67 "flex_lexer.l"
 TOKEN(ARRAY)
 	YY_BREAK
-case 12:
+case 10:
 YY_RULE_SETUP
-#line 72 "flex_lexer.l"
+#line 68 "flex_lexer.l"
 TOKEN(AS)
 	YY_BREAK
-case 13:
+case 11:
 YY_RULE_SETUP
-#line 73 "flex_lexer.l"
+#line 69 "flex_lexer.l"
 TOKEN(ASC)
 	YY_BREAK
-case 14:
+case 12:
 YY_RULE_SETUP
-#line 74 "flex_lexer.l"
+#line 70 "flex_lexer.l"
 TOKEN(BEFORE)
 	YY_BREAK
-case 15:
+case 13:
 YY_RULE_SETUP
-#line 75 "flex_lexer.l"
+#line 71 "flex_lexer.l"
 TOKEN(BEGIN)
 	YY_BREAK
-case 16:
+case 14:
 YY_RULE_SETUP
-#line 76 "flex_lexer.l"
+#line 72 "flex_lexer.l"
 TOKEN(BETWEEN)
 	YY_BREAK
-case 17:
+case 15:
 YY_RULE_SETUP
-#line 77 "flex_lexer.l"
+#line 73 "flex_lexer.l"
 TOKEN(BIGINT)
 	YY_BREAK
-case 18:
+case 16:
 YY_RULE_SETUP
-#line 78 "flex_lexer.l"
+#line 74 "flex_lexer.l"
 TOKEN(BOOLEAN)
 	YY_BREAK
-case 19:
+case 17:
 YY_RULE_SETUP
-#line 79 "flex_lexer.l"
+#line 75 "flex_lexer.l"
 TOKEN(BY)
 	YY_BREAK
-case 20:
+case 18:
 YY_RULE_SETUP
-#line 80 "flex_lexer.l"
+#line 76 "flex_lexer.l"
 TOKEN(CALL)
 	YY_BREAK
-case 21:
+case 19:
 YY_RULE_SETUP
-#line 81 "flex_lexer.l"
+#line 77 "flex_lexer.l"
 TOKEN(CASCADE)
 	YY_BREAK
-case 22:
+case 20:
 YY_RULE_SETUP
-#line 82 "flex_lexer.l"
+#line 78 "flex_lexer.l"
 TOKEN(CASE)
 	YY_BREAK
-case 23:
+case 21:
 YY_RULE_SETUP
-#line 83 "flex_lexer.l"
+#line 79 "flex_lexer.l"
 TOKEN(CAST)
 	YY_BREAK
-case 24:
+case 22:
 YY_RULE_SETUP
-#line 84 "flex_lexer.l"
+#line 80 "flex_lexer.l"
 TOKEN(CHAR)
 	YY_BREAK
-case 25:
+case 23:
 YY_RULE_SETUP
-#line 85 "flex_lexer.l"
+#line 81 "flex_lexer.l"
 TOKEN(COLUMN)
 	YY_BREAK
-case 26:
+case 24:
 YY_RULE_SETUP
-#line 86 "flex_lexer.l"
+#line 82 "flex_lexer.l"
 TOKEN(COLUMNS)
 	YY_BREAK
-case 27:
+case 25:
 YY_RULE_SETUP
-#line 87 "flex_lexer.l"
+#line 83 "flex_lexer.l"
 TOKEN(COMMIT)
 	YY_BREAK
-case 28:
+case 26:
 YY_RULE_SETUP
-#line 88 "flex_lexer.l"
+#line 84 "flex_lexer.l"
 TOKEN(CONTROL)
 	YY_BREAK
-case 29:
+case 27:
 YY_RULE_SETUP
-#line 89 "flex_lexer.l"
+#line 85 "flex_lexer.l"
 TOKEN(COPY)
 	YY_BREAK
-case 30:
+case 28:
 YY_RULE_SETUP
-#line 90 "flex_lexer.l"
+#line 86 "flex_lexer.l"
 TOKEN(CREATE)
 	YY_BREAK
-case 31:
+case 29:
 YY_RULE_SETUP
-#line 91 "flex_lexer.l"
+#line 87 "flex_lexer.l"
 TOKEN(CROSS)
 	YY_BREAK
-case 32:
+case 30:
 YY_RULE_SETUP
-#line 92 "flex_lexer.l"
+#line 88 "flex_lexer.l"
 TOKEN(DATE)
 	YY_BREAK
-case 33:
+case 31:
 YY_RULE_SETUP
-#line 93 "flex_lexer.l"
+#line 89 "flex_lexer.l"
 TOKEN(DATETIME)
 	YY_BREAK
-case 34:
+case 32:
 YY_RULE_SETUP
-#line 94 "flex_lexer.l"
+#line 90 "flex_lexer.l"
 TOKEN(DAY)
 	YY_BREAK
-case 35:
+case 33:
 YY_RULE_SETUP
-#line 95 "flex_lexer.l"
+#line 91 "flex_lexer.l"
 TOKEN(DAYS)
 	YY_BREAK
-case 36:
+case 34:
 YY_RULE_SETUP
-#line 96 "flex_lexer.l"
+#line 92 "flex_lexer.l"
 TOKEN(DEALLOCATE)
 	YY_BREAK
-case 37:
+case 35:
 YY_RULE_SETUP
-#line 97 "flex_lexer.l"
+#line 93 "flex_lexer.l"
 TOKEN(DECIMAL)
 	YY_BREAK
-case 38:
+case 36:
 YY_RULE_SETUP
-#line 98 "flex_lexer.l"
+#line 94 "flex_lexer.l"
 TOKEN(DEFAULT)
 	YY_BREAK
-case 39:
+case 37:
 YY_RULE_SETUP
-#line 99 "flex_lexer.l"
+#line 95 "flex_lexer.l"
 TOKEN(DELETE)
 	YY_BREAK
-case 40:
+case 38:
 YY_RULE_SETUP
-#line 100 "flex_lexer.l"
+#line 96 "flex_lexer.l"
 TOKEN(DELTA)
 	YY_BREAK
-case 41:
+case 39:
 YY_RULE_SETUP
-#line 101 "flex_lexer.l"
+#line 97 "flex_lexer.l"
 TOKEN(DESC)
 	YY_BREAK
-case 42:
+case 40:
 YY_RULE_SETUP
-#line 102 "flex_lexer.l"
+#line 98 "flex_lexer.l"
 TOKEN(DESCRIBE)
 	YY_BREAK
-case 43:
+case 41:
 YY_RULE_SETUP
-#line 103 "flex_lexer.l"
+#line 99 "flex_lexer.l"
 TOKEN(DIRECT)
 	YY_BREAK
-case 44:
+case 42:
 YY_RULE_SETUP
-#line 104 "flex_lexer.l"
+#line 100 "flex_lexer.l"
 TOKEN(DISTINCT)
 	YY_BREAK
-case 45:
+case 43:
 YY_RULE_SETUP
-#line 105 "flex_lexer.l"
+#line 101 "flex_lexer.l"
 TOKEN(DOUBLE)
 	YY_BREAK
-case 46:
+case 44:
 YY_RULE_SETUP
-#line 106 "flex_lexer.l"
+#line 102 "flex_lexer.l"
 TOKEN(DROP)
 	YY_BREAK
-case 47:
+case 45:
 YY_RULE_SETUP
-#line 107 "flex_lexer.l"
+#line 103 "flex_lexer.l"
 TOKEN(ELSE)
 	YY_BREAK
-case 48:
+case 46:
 YY_RULE_SETUP
-#line 108 "flex_lexer.l"
+#line 104 "flex_lexer.l"
 TOKEN(ENCODING)
 	YY_BREAK
-case 49:
+case 47:
 YY_RULE_SETUP
-#line 109 "flex_lexer.l"
+#line 105 "flex_lexer.l"
 TOKEN(END)
 	YY_BREAK
-case 50:
+case 48:
 YY_RULE_SETUP
-#line 110 "flex_lexer.l"
+#line 106 "flex_lexer.l"
 TOKEN(ESCAPE)
 	YY_BREAK
-case 51:
+case 49:
 YY_RULE_SETUP
-#line 111 "flex_lexer.l"
+#line 107 "flex_lexer.l"
 TOKEN(EXCEPT)
 	YY_BREAK
-case 52:
+case 50:
 YY_RULE_SETUP
-#line 112 "flex_lexer.l"
+#line 108 "flex_lexer.l"
 TOKEN(EXECUTE)
 	YY_BREAK
-case 53:
+case 51:
 YY_RULE_SETUP
-#line 113 "flex_lexer.l"
+#line 109 "flex_lexer.l"
 TOKEN(EXISTS)
 	YY_BREAK
-case 54:
+case 52:
 YY_RULE_SETUP
-#line 114 "flex_lexer.l"
+#line 110 "flex_lexer.l"
 TOKEN(EXPLAIN)
 	YY_BREAK
-case 55:
+case 53:
 YY_RULE_SETUP
-#line 115 "flex_lexer.l"
+#line 111 "flex_lexer.l"
 TOKEN(EXTRACT)
 	YY_BREAK
-case 56:
+case 54:
 YY_RULE_SETUP
-#line 116 "flex_lexer.l"
+#line 112 "flex_lexer.l"
 TOKEN(FALSE)
 	YY_BREAK
-case 57:
+case 55:
 YY_RULE_SETUP
-#line 117 "flex_lexer.l"
+#line 113 "flex_lexer.l"
 TOKEN(FILE)
 	YY_BREAK
-case 58:
+case 56:
 YY_RULE_SETUP
-#line 118 "flex_lexer.l"
+#line 114 "flex_lexer.l"
 TOKEN(FLOAT)
 	YY_BREAK
-case 59:
+case 57:
 YY_RULE_SETUP
-#line 119 "flex_lexer.l"
+#line 115 "flex_lexer.l"
 TOKEN(FOLLOWING)
 	YY_BREAK
-case 60:
+case 58:
 YY_RULE_SETUP
-#line 120 "flex_lexer.l"
+#line 116 "flex_lexer.l"
 TOKEN(FOR)
 	YY_BREAK
-case 61:
+case 59:
 YY_RULE_SETUP
-#line 121 "flex_lexer.l"
+#line 117 "flex_lexer.l"
 TOKEN(FOREIGN)
 	YY_BREAK
-case 62:
+case 60:
 YY_RULE_SETUP
-#line 122 "flex_lexer.l"
+#line 118 "flex_lexer.l"
 TOKEN(FORMAT)
 	YY_BREAK
-case 63:
+case 61:
 YY_RULE_SETUP
-#line 123 "flex_lexer.l"
+#line 119 "flex_lexer.l"
 TOKEN(FROM)
 	YY_BREAK
-case 64:
+case 62:
 YY_RULE_SETUP
-#line 124 "flex_lexer.l"
+#line 120 "flex_lexer.l"
 TOKEN(FULL)
 	YY_BREAK
-case 65:
+case 63:
 YY_RULE_SETUP
-#line 125 "flex_lexer.l"
+#line 121 "flex_lexer.l"
 TOKEN(GLOBAL)
 	YY_BREAK
-case 66:
+case 64:
 YY_RULE_SETUP
-#line 126 "flex_lexer.l"
+#line 122 "flex_lexer.l"
 TOKEN(GROUP)
 	YY_BREAK
-case 67:
+case 65:
 YY_RULE_SETUP
-#line 127 "flex_lexer.l"
+#line 123 "flex_lexer.l"
 TOKEN(GROUPS)
 	YY_BREAK
-case 68:
+case 66:
 YY_RULE_SETUP
-#line 128 "flex_lexer.l"
+#line 124 "flex_lexer.l"
 TOKEN(HASH)
 	YY_BREAK
-case 69:
+case 67:
 YY_RULE_SETUP
-#line 129 "flex_lexer.l"
+#line 125 "flex_lexer.l"
 TOKEN(HAVING)
 	YY_BREAK
-case 70:
+case 68:
 YY_RULE_SETUP
-#line 130 "flex_lexer.l"
+#line 126 "flex_lexer.l"
 TOKEN(HINT)
 	YY_BREAK
-case 71:
+case 69:
 YY_RULE_SETUP
-#line 131 "flex_lexer.l"
+#line 127 "flex_lexer.l"
 TOKEN(HOUR)
 	YY_BREAK
-case 72:
+case 70:
 YY_RULE_SETUP
-#line 132 "flex_lexer.l"
+#line 128 "flex_lexer.l"
 TOKEN(HOURS)
 	YY_BREAK
-case 73:
+case 71:
 YY_RULE_SETUP
-#line 133 "flex_lexer.l"
+#line 129 "flex_lexer.l"
 TOKEN(IF)
 	YY_BREAK
-case 74:
+case 72:
 YY_RULE_SETUP
-#line 134 "flex_lexer.l"
+#line 130 "flex_lexer.l"
 TOKEN(ILIKE)
 	YY_BREAK
-case 75:
+case 73:
 YY_RULE_SETUP
-#line 135 "flex_lexer.l"
+#line 131 "flex_lexer.l"
 TOKEN(IMPORT)
 	YY_BREAK
-case 76:
+case 74:
 YY_RULE_SETUP
-#line 136 "flex_lexer.l"
+#line 132 "flex_lexer.l"
 TOKEN(IN)
 	YY_BREAK
-case 77:
+case 75:
 YY_RULE_SETUP
-#line 137 "flex_lexer.l"
+#line 133 "flex_lexer.l"
 TOKEN(INDEX)
 	YY_BREAK
-case 78:
+case 76:
 YY_RULE_SETUP
-#line 138 "flex_lexer.l"
+#line 134 "flex_lexer.l"
 TOKEN(INNER)
 	YY_BREAK
-case 79:
+case 77:
 YY_RULE_SETUP
-#line 139 "flex_lexer.l"
+#line 135 "flex_lexer.l"
 TOKEN(INSERT)
 	YY_BREAK
-case 80:
+case 78:
 YY_RULE_SETUP
-#line 140 "flex_lexer.l"
+#line 136 "flex_lexer.l"
 TOKEN(INT)
 	YY_BREAK
-case 81:
+case 79:
 YY_RULE_SETUP
-#line 141 "flex_lexer.l"
+#line 137 "flex_lexer.l"
 TOKEN(INTEGER)
 	YY_BREAK
-case 82:
+case 80:
 YY_RULE_SETUP
-#line 142 "flex_lexer.l"
+#line 138 "flex_lexer.l"
 TOKEN(INTERSECT)
 	YY_BREAK
-case 83:
+case 81:
 YY_RULE_SETUP
-#line 143 "flex_lexer.l"
+#line 139 "flex_lexer.l"
 TOKEN(INTERVAL)
 	YY_BREAK
-case 84:
+case 82:
 YY_RULE_SETUP
-#line 144 "flex_lexer.l"
+#line 140 "flex_lexer.l"
 TOKEN(INTO)
 	YY_BREAK
-case 85:
+case 83:
 YY_RULE_SETUP
-#line 145 "flex_lexer.l"
+#line 141 "flex_lexer.l"
 TOKEN(IS)
 	YY_BREAK
-case 86:
+case 84:
 YY_RULE_SETUP
-#line 146 "flex_lexer.l"
+#line 142 "flex_lexer.l"
 TOKEN(ISNULL)
 	YY_BREAK
-case 87:
+case 85:
 YY_RULE_SETUP
-#line 147 "flex_lexer.l"
+#line 143 "flex_lexer.l"
 TOKEN(JOIN)
 	YY_BREAK
-case 88:
+case 86:
 YY_RULE_SETUP
-#line 148 "flex_lexer.l"
+#line 144 "flex_lexer.l"
 TOKEN(KEY)
 	YY_BREAK
-case 89:
+case 87:
 YY_RULE_SETUP
-#line 149 "flex_lexer.l"
+#line 145 "flex_lexer.l"
 TOKEN(LEFT)
 	YY_BREAK
-case 90:
+case 88:
 YY_RULE_SETUP
-#line 150 "flex_lexer.l"
+#line 146 "flex_lexer.l"
 TOKEN(LIKE)
 	YY_BREAK
-case 91:
+case 89:
 YY_RULE_SETUP
-#line 151 "flex_lexer.l"
+#line 147 "flex_lexer.l"
 TOKEN(LIMIT)
 	YY_BREAK
-case 92:
+case 90:
 YY_RULE_SETUP
-#line 152 "flex_lexer.l"
+#line 148 "flex_lexer.l"
 TOKEN(LOAD)
 	YY_BREAK
-case 93:
+case 91:
 YY_RULE_SETUP
-#line 153 "flex_lexer.l"
+#line 149 "flex_lexer.l"
 TOKEN(LOCAL)
 	YY_BREAK
-case 94:
+case 92:
 YY_RULE_SETUP
-#line 154 "flex_lexer.l"
+#line 150 "flex_lexer.l"
 TOKEN(LOCKED)
 	YY_BREAK
-case 95:
+case 93:
 YY_RULE_SETUP
-#line 155 "flex_lexer.l"
+#line 151 "flex_lexer.l"
 TOKEN(LONG)
 	YY_BREAK
-case 96:
+case 94:
 YY_RULE_SETUP
-#line 156 "flex_lexer.l"
+#line 152 "flex_lexer.l"
 TOKEN(MERGE)
 	YY_BREAK
-case 97:
+case 95:
 YY_RULE_SETUP
-#line 157 "flex_lexer.l"
+#line 153 "flex_lexer.l"
 TOKEN(MINUS)
 	YY_BREAK
-case 98:
+case 96:
 YY_RULE_SETUP
-#line 158 "flex_lexer.l"
+#line 154 "flex_lexer.l"
 TOKEN(MINUTE)
 	YY_BREAK
-case 99:
+case 97:
 YY_RULE_SETUP
-#line 159 "flex_lexer.l"
+#line 155 "flex_lexer.l"
 TOKEN(MINUTES)
 	YY_BREAK
-case 100:
+case 98:
 YY_RULE_SETUP
-#line 160 "flex_lexer.l"
+#line 156 "flex_lexer.l"
 TOKEN(MONTH)
 	YY_BREAK
-case 101:
+case 99:
 YY_RULE_SETUP
-#line 161 "flex_lexer.l"
+#line 157 "flex_lexer.l"
 TOKEN(MONTHS)
 	YY_BREAK
-case 102:
+case 100:
 YY_RULE_SETUP
-#line 162 "flex_lexer.l"
+#line 158 "flex_lexer.l"
 TOKEN(NATURAL)
 	YY_BREAK
-case 103:
+case 101:
 YY_RULE_SETUP
-#line 163 "flex_lexer.l"
+#line 159 "flex_lexer.l"
 TOKEN(NO)
 	YY_BREAK
-case 104:
+case 102:
 YY_RULE_SETUP
-#line 164 "flex_lexer.l"
+#line 160 "flex_lexer.l"
 TOKEN(NOT)
 	YY_BREAK
-case 105:
+case 103:
 YY_RULE_SETUP
-#line 165 "flex_lexer.l"
+#line 161 "flex_lexer.l"
 TOKEN(NOWAIT)
 	YY_BREAK
-case 106:
+case 104:
 YY_RULE_SETUP
-#line 166 "flex_lexer.l"
+#line 162 "flex_lexer.l"
 TOKEN(NULL)
 	YY_BREAK
-case 107:
+case 105:
 YY_RULE_SETUP
-#line 167 "flex_lexer.l"
+#line 163 "flex_lexer.l"
 TOKEN(NVARCHAR)
 	YY_BREAK
-case 108:
+case 106:
 YY_RULE_SETUP
-#line 168 "flex_lexer.l"
+#line 164 "flex_lexer.l"
 TOKEN(OF)
 	YY_BREAK
-case 109:
+case 107:
 YY_RULE_SETUP
-#line 169 "flex_lexer.l"
+#line 165 "flex_lexer.l"
 TOKEN(OFF)
 	YY_BREAK
-case 110:
+case 108:
 YY_RULE_SETUP
-#line 170 "flex_lexer.l"
+#line 166 "flex_lexer.l"
 TOKEN(OFFSET)
 	YY_BREAK
-case 111:
+case 109:
 YY_RULE_SETUP
-#line 171 "flex_lexer.l"
+#line 167 "flex_lexer.l"
 TOKEN(ON)
 	YY_BREAK
-case 112:
+case 110:
 YY_RULE_SETUP
-#line 172 "flex_lexer.l"
+#line 168 "flex_lexer.l"
 TOKEN(OR)
 	YY_BREAK
-case 113:
+case 111:
 YY_RULE_SETUP
-#line 173 "flex_lexer.l"
+#line 169 "flex_lexer.l"
 TOKEN(ORDER)
 	YY_BREAK
-case 114:
+case 112:
 YY_RULE_SETUP
-#line 174 "flex_lexer.l"
+#line 170 "flex_lexer.l"
 TOKEN(OUTER)
 	YY_BREAK
-case 115:
+case 113:
 YY_RULE_SETUP
-#line 175 "flex_lexer.l"
+#line 171 "flex_lexer.l"
 TOKEN(OVER)
 	YY_BREAK
-case 116:
+case 114:
 YY_RULE_SETUP
-#line 176 "flex_lexer.l"
+#line 172 "flex_lexer.l"
 TOKEN(PARAMETERS)
 	YY_BREAK
-case 117:
+case 115:
 YY_RULE_SETUP
-#line 177 "flex_lexer.l"
+#line 173 "flex_lexer.l"
 TOKEN(PARTITION)
 	YY_BREAK
-case 118:
+case 116:
 YY_RULE_SETUP
-#line 178 "flex_lexer.l"
+#line 174 "flex_lexer.l"
 TOKEN(PLAN)
 	YY_BREAK
-case 119:
+case 117:
 YY_RULE_SETUP
-#line 179 "flex_lexer.l"
+#line 175 "flex_lexer.l"
 TOKEN(PRECEDING)
 	YY_BREAK
-case 120:
+case 118:
 YY_RULE_SETUP
-#line 180 "flex_lexer.l"
+#line 176 "flex_lexer.l"
 TOKEN(PREPARE)
 	YY_BREAK
-case 121:
+case 119:
 YY_RULE_SETUP
-#line 181 "flex_lexer.l"
+#line 177 "flex_lexer.l"
 TOKEN(PRIMARY)
 	YY_BREAK
-case 122:
+case 120:
 YY_RULE_SETUP
-#line 182 "flex_lexer.l"
+#line 178 "flex_lexer.l"
 TOKEN(RANGE)
 	YY_BREAK
-case 123:
+case 121:
 YY_RULE_SETUP
-#line 183 "flex_lexer.l"
+#line 179 "flex_lexer.l"
 TOKEN(REAL)
 	YY_BREAK
-case 124:
+case 122:
 YY_RULE_SETUP
-#line 184 "flex_lexer.l"
+#line 180 "flex_lexer.l"
 TOKEN(REFERENCES)
 	YY_BREAK
-case 125:
+case 123:
 YY_RULE_SETUP
-#line 185 "flex_lexer.l"
+#line 181 "flex_lexer.l"
 TOKEN(RENAME)
 	YY_BREAK
-case 126:
+case 124:
 YY_RULE_SETUP
-#line 186 "flex_lexer.l"
+#line 182 "flex_lexer.l"
 TOKEN(RESTRICT)
 	YY_BREAK
-case 127:
+case 125:
 YY_RULE_SETUP
-#line 187 "flex_lexer.l"
+#line 183 "flex_lexer.l"
 TOKEN(RIGHT)
 	YY_BREAK
-case 128:
+case 126:
 YY_RULE_SETUP
-#line 188 "flex_lexer.l"
+#line 184 "flex_lexer.l"
 TOKEN(ROLLBACK)
 	YY_BREAK
-case 129:
+case 127:
 YY_RULE_SETUP
-#line 189 "flex_lexer.l"
+#line 185 "flex_lexer.l"
 TOKEN(ROWS)
 	YY_BREAK
-case 130:
+case 128:
 YY_RULE_SETUP
-#line 190 "flex_lexer.l"
+#line 186 "flex_lexer.l"
 TOKEN(SCHEMA)
 	YY_BREAK
-case 131:
+case 129:
 YY_RULE_SETUP
-#line 191 "flex_lexer.l"
+#line 187 "flex_lexer.l"
 TOKEN(SCHEMAS)
 	YY_BREAK
-case 132:
+case 130:
 YY_RULE_SETUP
-#line 192 "flex_lexer.l"
+#line 188 "flex_lexer.l"
 TOKEN(SECOND)
 	YY_BREAK
-case 133:
+case 131:
 YY_RULE_SETUP
-#line 193 "flex_lexer.l"
+#line 189 "flex_lexer.l"
 TOKEN(SECONDS)
 	YY_BREAK
-case 134:
+case 132:
 YY_RULE_SETUP
-#line 194 "flex_lexer.l"
+#line 190 "flex_lexer.l"
 TOKEN(SELECT)
 	YY_BREAK
-case 135:
+case 133:
 YY_RULE_SETUP
-#line 195 "flex_lexer.l"
+#line 191 "flex_lexer.l"
 TOKEN(SET)
 	YY_BREAK
-case 136:
+case 134:
 YY_RULE_SETUP
-#line 196 "flex_lexer.l"
+#line 192 "flex_lexer.l"
 TOKEN(SHARE)
 	YY_BREAK
-case 137:
+case 135:
 YY_RULE_SETUP
-#line 197 "flex_lexer.l"
+#line 193 "flex_lexer.l"
 TOKEN(SHOW)
 	YY_BREAK
-case 138:
+case 136:
 YY_RULE_SETUP
-#line 198 "flex_lexer.l"
+#line 194 "flex_lexer.l"
 TOKEN(SKIP)
 	YY_BREAK
-case 139:
+case 137:
 YY_RULE_SETUP
-#line 199 "flex_lexer.l"
+#line 195 "flex_lexer.l"
 TOKEN(SMALLINT)
 	YY_BREAK
-case 140:
+case 138:
 YY_RULE_SETUP
-#line 200 "flex_lexer.l"
+#line 196 "flex_lexer.l"
 TOKEN(SORTED)
 	YY_BREAK
-case 141:
+case 139:
 YY_RULE_SETUP
-#line 201 "flex_lexer.l"
+#line 197 "flex_lexer.l"
 TOKEN(SPATIAL)
 	YY_BREAK
-case 142:
+case 140:
 YY_RULE_SETUP
-#line 202 "flex_lexer.l"
+#line 198 "flex_lexer.l"
 TOKEN(TABLE)
 	YY_BREAK
-case 143:
+case 141:
 YY_RULE_SETUP
-#line 203 "flex_lexer.l"
+#line 199 "flex_lexer.l"
 TOKEN(TABLES)
 	YY_BREAK
-case 144:
+case 142:
 YY_RULE_SETUP
-#line 204 "flex_lexer.l"
+#line 200 "flex_lexer.l"
 TOKEN(TEMPORARY)
 	YY_BREAK
-case 145:
+case 143:
 YY_RULE_SETUP
-#line 205 "flex_lexer.l"
+#line 201 "flex_lexer.l"
 TOKEN(TEXT)
 	YY_BREAK
-case 146:
+case 144:
 YY_RULE_SETUP
-#line 206 "flex_lexer.l"
+#line 202 "flex_lexer.l"
 TOKEN(THEN)
 	YY_BREAK
-case 147:
+case 145:
 YY_RULE_SETUP
-#line 207 "flex_lexer.l"
+#line 203 "flex_lexer.l"
 TOKEN(TIME)
 	YY_BREAK
-case 148:
+case 146:
 YY_RULE_SETUP
-#line 208 "flex_lexer.l"
+#line 204 "flex_lexer.l"
 TOKEN(TIMESTAMP)
 	YY_BREAK
-case 149:
+case 147:
 YY_RULE_SETUP
-#line 209 "flex_lexer.l"
+#line 205 "flex_lexer.l"
 TOKEN(TO)
 	YY_BREAK
-case 150:
+case 148:
 YY_RULE_SETUP
-#line 210 "flex_lexer.l"
+#line 206 "flex_lexer.l"
 TOKEN(TOP)
 	YY_BREAK
-case 151:
+case 149:
 YY_RULE_SETUP
-#line 211 "flex_lexer.l"
+#line 207 "flex_lexer.l"
 TOKEN(TRANSACTION)
 	YY_BREAK
-case 152:
+case 150:
 YY_RULE_SETUP
-#line 212 "flex_lexer.l"
+#line 208 "flex_lexer.l"
 TOKEN(TRUE)
 	YY_BREAK
-case 153:
+case 151:
 YY_RULE_SETUP
-#line 213 "flex_lexer.l"
+#line 209 "flex_lexer.l"
 TOKEN(TRUNCATE)
 	YY_BREAK
-case 154:
+case 152:
 YY_RULE_SETUP
-#line 214 "flex_lexer.l"
+#line 210 "flex_lexer.l"
 TOKEN(UNBOUNDED)
 	YY_BREAK
-case 155:
+case 153:
 YY_RULE_SETUP
-#line 215 "flex_lexer.l"
+#line 211 "flex_lexer.l"
 TOKEN(UNION)
 	YY_BREAK
-case 156:
+case 154:
 YY_RULE_SETUP
-#line 216 "flex_lexer.l"
+#line 212 "flex_lexer.l"
 TOKEN(UNIQUE)
 	YY_BREAK
-case 157:
+case 155:
 YY_RULE_SETUP
-#line 217 "flex_lexer.l"
+#line 213 "flex_lexer.l"
 TOKEN(UNLOAD)
 	YY_BREAK
-case 158:
+case 156:
 YY_RULE_SETUP
-#line 218 "flex_lexer.l"
+#line 214 "flex_lexer.l"
 TOKEN(UPDATE)
 	YY_BREAK
-case 159:
+case 157:
 YY_RULE_SETUP
-#line 219 "flex_lexer.l"
+#line 215 "flex_lexer.l"
 TOKEN(USING)
 	YY_BREAK
-case 160:
+case 158:
 YY_RULE_SETUP
-#line 220 "flex_lexer.l"
+#line 216 "flex_lexer.l"
 TOKEN(VALUES)
 	YY_BREAK
-case 161:
+case 159:
 YY_RULE_SETUP
-#line 221 "flex_lexer.l"
+#line 217 "flex_lexer.l"
 TOKEN(VARCHAR)
 	YY_BREAK
-case 162:
+case 160:
 YY_RULE_SETUP
-#line 222 "flex_lexer.l"
+#line 218 "flex_lexer.l"
 TOKEN(VIEW)
 	YY_BREAK
-case 163:
+case 161:
 YY_RULE_SETUP
-#line 223 "flex_lexer.l"
+#line 219 "flex_lexer.l"
 TOKEN(VIRTUAL)
 	YY_BREAK
-case 164:
+case 162:
 YY_RULE_SETUP
-#line 224 "flex_lexer.l"
+#line 220 "flex_lexer.l"
 TOKEN(WHEN)
 	YY_BREAK
-case 165:
+case 163:
 YY_RULE_SETUP
-#line 225 "flex_lexer.l"
+#line 221 "flex_lexer.l"
 TOKEN(WHERE)
 	YY_BREAK
-case 166:
+case 164:
 YY_RULE_SETUP
-#line 226 "flex_lexer.l"
+#line 222 "flex_lexer.l"
 TOKEN(WITH)
 	YY_BREAK
-case 167:
+case 165:
 YY_RULE_SETUP
-#line 227 "flex_lexer.l"
+#line 223 "flex_lexer.l"
 TOKEN(YEAR)
 	YY_BREAK
-case 168:
+case 166:
 YY_RULE_SETUP
-#line 228 "flex_lexer.l"
+#line 224 "flex_lexer.l"
 TOKEN(YEARS)
 	YY_BREAK
-case 169:
-/* rule 169 can match eol */
+case 167:
+/* rule 167 can match eol */
 YY_RULE_SETUP
-#line 230 "flex_lexer.l"
+#line 226 "flex_lexer.l"
 TOKEN(CURRENT_ROW)
 	YY_BREAK
-case 170:
-/* rule 170 can match eol */
+case 168:
+/* rule 168 can match eol */
 YY_RULE_SETUP
-#line 231 "flex_lexer.l"
+#line 227 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
 /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
-case 171:
+case 169:
 YY_RULE_SETUP
-#line 234 "flex_lexer.l"
+#line 230 "flex_lexer.l"
 TOKEN(EQUALS)
 	YY_BREAK
-case 172:
+case 170:
 YY_RULE_SETUP
-#line 235 "flex_lexer.l"
+#line 231 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
-case 173:
+case 171:
 YY_RULE_SETUP
-#line 236 "flex_lexer.l"
+#line 232 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
-case 174:
+case 172:
 YY_RULE_SETUP
-#line 237 "flex_lexer.l"
+#line 233 "flex_lexer.l"
 TOKEN(LESSEQ)
 	YY_BREAK
-case 175:
+case 173:
 YY_RULE_SETUP
-#line 238 "flex_lexer.l"
+#line 234 "flex_lexer.l"
 TOKEN(GREATEREQ)
 	YY_BREAK
-case 176:
+case 174:
 YY_RULE_SETUP
-#line 239 "flex_lexer.l"
+#line 235 "flex_lexer.l"
 TOKEN(CONCAT)
 	YY_BREAK
-case 177:
+case 175:
 YY_RULE_SETUP
-#line 241 "flex_lexer.l"
+#line 237 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
-case 178:
-#line 244 "flex_lexer.l"
-case 179:
+case 176:
+#line 240 "flex_lexer.l"
+case 177:
 YY_RULE_SETUP
-#line 244 "flex_lexer.l"
+#line 240 "flex_lexer.l"
 {
   yylval->fval = atof(yytext);
   return SQL_FLOATVAL;
@@ -4373,17 +2489,17 @@ YY_RULE_SETUP
    * positive equivalent. We thus match for LLONG_MIN specifically. This is not an issue for floats, where
    *   numeric_limits<double>::lowest() == -numeric_limits<double>::max();
    */
-case 180:
+case 178:
 YY_RULE_SETUP
-#line 254 "flex_lexer.l"
+#line 250 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
 }
 	YY_BREAK
-case 181:
+case 179:
 YY_RULE_SETUP
-#line 259 "flex_lexer.l"
+#line 255 "flex_lexer.l"
 {
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
@@ -4394,61 +2510,60 @@ YY_RULE_SETUP
   return SQL_INTVAL;
 }
 	YY_BREAK
-case 182:
+case 180:
 YY_RULE_SETUP
-#line 269 "flex_lexer.l"
+#line 265 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
-case 183:
+case 181:
 YY_RULE_SETUP
-#line 275 "flex_lexer.l"
+#line 271 "flex_lexer.l"
 {
   yylval->sval = strdup(yytext);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
-case 184:
+case 182:
 YY_RULE_SETUP
-#line 280 "flex_lexer.l"
+#line 276 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
-case 185:
+case 183:
 YY_RULE_SETUP
-#line 281 "flex_lexer.l"
+#line 277 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
-case 186:
-/* rule 186 can match eol */
+case 184:
+/* rule 184 can match eol */
 YY_RULE_SETUP
-#line 282 "flex_lexer.l"
+#line 278 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
-case 187:
+case 185:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 279 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 284 "flex_lexer.l"
+#line 280 "flex_lexer.l"
 { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 	YY_BREAK
-case 188:
+case 186:
 YY_RULE_SETUP
-#line 286 "flex_lexer.l"
+#line 282 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 	YY_BREAK
-case 189:
+case 187:
 YY_RULE_SETUP
-#line 288 "flex_lexer.l"
+#line 284 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 4450 "flex_lexer.cpp"
+#line 2566 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
-case YY_STATE_EOF(COMMENT):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -4747,7 +2862,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 1368 )
+			if ( yy_current_state >= 689 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -4776,11 +2891,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 1368 )
+		if ( yy_current_state >= 689 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 1367);
+	yy_is_jam = (yy_current_state == 688);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -5603,7 +3718,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 288 "flex_lexer.l"
+#line 284 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 76e89d4..60a17fa 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -458,7 +458,6 @@ void yyfree ( void * , yyscan_t yyscanner );
 #ifdef YY_HEADER_EXPORT_START_CONDITIONS
 #define INITIAL 0
 #define singlequotedstring 1
-#define COMMENT 2
 
 #endif
 
@@ -730,9 +729,9 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 288 "flex_lexer.l"
+#line 284 "flex_lexer.l"
 
 
-#line 737 "flex_lexer.h"
+#line 736 "flex_lexer.h"
 #undef hsql_IN_HEADER
 #endif /* hsql_HEADER_H */
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index ff72947..77cc88e 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -49,16 +49,12 @@ static thread_local std::stringstream strbuf;
 /* %option nodefault */
 
 
-%s COMMENT
-
 /***************************
  ** Section 3: Rules
  ***************************/
 %%
 
---              BEGIN(COMMENT);
-<COMMENT>[^\n]* /* skipping comment content until a end of line is read */;
-<COMMENT>\n     BEGIN(INITIAL);
+--[^\n]*        /* skip comment until the end of the line */;
 
 [ \t\n]+        /* skip whitespace */;
 
-- 
2.43.0


From f92ae508b3751ecf64d7cffb75d0d8770e3200d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 04/14] fix: reject queries with an embedded null character

The text after the character was ignored (or, inside of strings and quoted identifiers, the rest of the value).
---
 src/SQLParser.cpp         |    5 +-
 src/parser/bison_parser.h |    2 +-
 src/parser/bison_parser.y |    2 +-
 src/parser/flex_lexer.cpp | 1127 +++++++++++++++++++------------------
 src/parser/flex_lexer.h   |    2 +-
 src/parser/flex_lexer.l   |    5 +-
 6 files changed, 575 insertions(+), 568 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index 9c1d154..089b171 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -19,8 +19,7 @@ bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
     fprintf(stderr, "SQLParser: Error when initializing lexer!\n");
     return false;
   }
-  const char* text = sql.c_str();
-  state = hsql__scan_string(text, scanner);
+  state = hsql__scan_bytes(sql.data(), sql.size(), scanner);
 
   // Parse the tokens.
   // If parsing fails, the result will contain an error object.
@@ -49,7 +48,7 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   }
 
   YY_BUFFER_STATE state;
-  state = hsql__scan_string(sql.c_str(), scanner);
+  state = hsql__scan_bytes(sql.data(), sql.size(), scanner);
 
   YYSTYPE yylval{};
   YYLTYPE yylloc{};
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index 74b6fd4..3719056 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -65,7 +65,7 @@ extern int hsql_debug;
 #define YY_USER_ACTION                        \
   yylloc->first_line = yylloc->last_line;     \
   yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
+  for (int i = 0; i < (int)yyleng; i++) {     \
     yylloc->total_column++;                   \
     yylloc->string_length++;                  \
     if (yytext[i] == '\n') {                  \
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 5eca6a6..fc5ba36 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -47,7 +47,7 @@
 #define YY_USER_ACTION                        \
   yylloc->first_line = yylloc->last_line;     \
   yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
+  for (int i = 0; i < (int)yyleng; i++) {     \
     yylloc->total_column++;                   \
     yylloc->string_length++;                  \
     if (yytext[i] == '\n') {                  \
diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 280028e..bed9885 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -573,8 +573,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 187
-#define YY_END_OF_BUFFER 188
+#define YY_NUM_RULES 188
+#define YY_END_OF_BUFFER 189
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -582,83 +582,83 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[689] =
+static const flex_int16_t yy_accept[690] =
     {   0,
-        0,    0,  184,  184,  188,  186,    2,    2,  186,  186,
+        0,    0,    0,    0,  189,  187,    2,    2,  187,  187,
       175,  182,  175,  175,  179,  175,  175,  175,  181,  181,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,  181,  175,  184,  185,    2,  170,    0,    1,    0,
-      177,  176,  179,  172,  171,  169,  173,  181,  181,  181,
-      181,  181,  181,   10,  181,  181,  181,   17,  181,  181,
+      181,  181,  175,  184,  186,  185,    2,  170,    0,    1,
+        0,  177,  176,  179,  172,  171,  169,  173,  181,  181,
+      181,  181,  181,  181,   10,  181,  181,  181,   17,  181,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,  181,  181,   71,  181,  181,   74,   83,  181,  181,
+      181,  181,  181,  181,   71,  181,  181,   74,   83,  181,
 
-      181,  181,  181,  181,  181,  181,  181,  101,  181,  181,
-      106,  109,  110,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  101,  181,
+      181,  106,  109,  110,  181,  181,  181,  181,  181,  181,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,  181,  181,  147,  181,  181,  181,  181,  181,  181,
-      181,  181,  181,  174,  184,  183,  180,    1,    0,  176,
-        3,  181,    5,  181,  181,    8,  181,   11,  181,  181,
+      181,  181,  181,  181,  147,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  174,  184,  183,  180,    1,    0,
+      176,    3,  181,    5,  181,  181,    8,  181,   11,  181,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,  181,  181,  181,   32,  181,  181,  181,  181,  181,
-      181,  181,  181,  181,  181,  181,   47,  181,  181,  181,
-      181,  181,  181,  181,  181,  181,  181,   58,  181,  181,
+      181,  181,  181,  181,  181,   32,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,   47,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,   58,  181,
 
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,   78,  181,  181,   86,  181,  181,  181,  181,  181,
-      181,  181,  181,  181,  181,  102,  181,  181,  181,  107,
+      181,  181,   78,  181,  181,   86,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  102,  181,  181,  181,
+      107,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,  133,
       181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,  181,  181,  181,  181,  181,  181,  181,  133,  181,
-      181,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      148,  181,  181,  181,  181,  181,  181,  181,  181,  181,
-      181,  181,  181,  181,  181,    0,  181,  181,  181,  181,
-      181,  181,  181,  181,  181,   18,  181,   20,   21,   22,
-      181,  181,  181,   27,  181,  181,  181,   30,   33,  181,
-
-      181,  181,  181,  181,   39,  181,  181,  181,   44,   45,
-      181,  181,  181,  181,  181,  181,  181,  181,   55,  181,
-      181,  181,  181,   61,   62,  181,  181,   66,  181,   68,
-       69,  181,  181,  181,  181,  181,  181,   82,  181,   85,
-       87,   88,  181,   90,  181,  181,   93,  181,  181,  181,
-      181,  181,  104,  181,  181,  181,  181,  113,  181,  181,
-      116,  181,  181,  181,  181,  121,  181,  181,  181,  181,
-      181,  127,  181,  181,  181,  181,  135,  136,  181,  181,
-      181,  181,  181,  143,  144,  145,  181,  150,  181,  181,
-      181,  181,  181,  181,  181,  181,  181,  160,  181,  162,
-
-      181,  164,  165,    0,    4,    6,  181,    9,  181,   13,
-      181,  181,  181,  181,  181,  181,  181,  181,  181,   29,
-      181,  181,  181,  181,  181,  181,   38,  181,  181,  181,
-      181,  181,  181,  181,  181,  181,  181,  181,   54,   56,
-      181,  181,  181,  181,   64,  181,   70,   72,  181,   75,
-       76,  181,  181,  181,  181,   89,   91,  181,   94,   95,
-      181,   98,  181,  181,  181,  181,  111,  112,  181,  181,
-      181,  181,  181,  120,  181,  181,  181,  125,  181,  181,
-      181,  181,  134,  181,  181,  181,  140,  181,  181,  181,
-      181,  181,  153,  181,  181,  181,  157,  181,  181,  181,
-
-      163,  166,    0,  181,   12,  181,   15,  181,  181,  181,
-       23,   25,  181,   28,  181,  181,  181,  181,  181,   37,
-      181,   41,  181,   43,  181,   48,   49,  181,   51,  181,
-      181,  181,  181,   60,   63,   65,   67,   73,   77,  181,
-      181,  181,   84,   92,   96,   99,  181,  103,  181,  108,
-      181,  181,  181,  181,  181,  181,  123,  181,  181,  128,
-      130,  132,  181,  138,  181,  141,  181,  181,  181,  181,
-      181,  154,  155,  156,  158,  181,  181,    0,    7,   14,
-       16,   19,  181,   24,   26,  181,  181,  181,   35,   36,
-      181,  181,  181,   50,   52,   53,  181,   59,   79,  181,
-
-      181,   97,  100,  181,  181,  181,  181,  118,  119,  181,
-      181,  181,  129,  131,  181,  139,  181,  181,  181,  181,
-      181,  159,  161,    0,  181,    0,   31,  181,   40,   42,
-       46,  181,  181,   81,  105,  181,  181,  181,  181,  124,
-      126,  137,  181,  181,  181,  151,  181,    0,  181,    0,
-      181,   57,   80,  181,  115,  117,  181,  142,  146,  181,
-      152,    0,    0,    0,   34,  114,  122,  181,    0,    0,
-      167,  149,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,  168,    0,    0,  178,    0
+      181,  148,  181,  181,  181,  181,  181,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,    0,  181,  181,  181,
+      181,  181,  181,  181,  181,  181,   18,  181,   20,   21,
+       22,  181,  181,  181,   27,  181,  181,  181,   30,   33,
+
+      181,  181,  181,  181,  181,   39,  181,  181,  181,   44,
+       45,  181,  181,  181,  181,  181,  181,  181,  181,   55,
+      181,  181,  181,  181,   61,   62,  181,  181,   66,  181,
+       68,   69,  181,  181,  181,  181,  181,  181,   82,  181,
+       85,   87,   88,  181,   90,  181,  181,   93,  181,  181,
+      181,  181,  181,  104,  181,  181,  181,  181,  113,  181,
+      181,  116,  181,  181,  181,  181,  121,  181,  181,  181,
+      181,  181,  127,  181,  181,  181,  181,  135,  136,  181,
+      181,  181,  181,  181,  143,  144,  145,  181,  150,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  160,  181,
+
+      162,  181,  164,  165,    0,    4,    6,  181,    9,  181,
+       13,  181,  181,  181,  181,  181,  181,  181,  181,  181,
+       29,  181,  181,  181,  181,  181,  181,   38,  181,  181,
+      181,  181,  181,  181,  181,  181,  181,  181,  181,   54,
+       56,  181,  181,  181,  181,   64,  181,   70,   72,  181,
+       75,   76,  181,  181,  181,  181,   89,   91,  181,   94,
+       95,  181,   98,  181,  181,  181,  181,  111,  112,  181,
+      181,  181,  181,  181,  120,  181,  181,  181,  125,  181,
+      181,  181,  181,  134,  181,  181,  181,  140,  181,  181,
+      181,  181,  181,  153,  181,  181,  181,  157,  181,  181,
+
+      181,  163,  166,    0,  181,   12,  181,   15,  181,  181,
+      181,   23,   25,  181,   28,  181,  181,  181,  181,  181,
+       37,  181,   41,  181,   43,  181,   48,   49,  181,   51,
+      181,  181,  181,  181,   60,   63,   65,   67,   73,   77,
+      181,  181,  181,   84,   92,   96,   99,  181,  103,  181,
+      108,  181,  181,  181,  181,  181,  181,  123,  181,  181,
+      128,  130,  132,  181,  138,  181,  141,  181,  181,  181,
+      181,  181,  154,  155,  156,  158,  181,  181,    0,    7,
+       14,   16,   19,  181,   24,   26,  181,  181,  181,   35,
+       36,  181,  181,  181,   50,   52,   53,  181,   59,   79,
+
+      181,  181,   97,  100,  181,  181,  181,  181,  118,  119,
+      181,  181,  181,  129,  131,  181,  139,  181,  181,  181,
+      181,  181,  159,  161,    0,  181,    0,   31,  181,   40,
+       42,   46,  181,  181,   81,  105,  181,  181,  181,  181,
+      124,  126,  137,  181,  181,  181,  151,  181,    0,  181,
+        0,  181,   57,   80,  181,  115,  117,  181,  142,  146,
+      181,  152,    0,    0,    0,   34,  114,  122,  181,    0,
+        0,  167,  149,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,  168,    0,    0,  178,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -693,7 +693,7 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[77] =
+static const YY_CHAR yy_meta[78] =
     {   0,
         1,    1,    2,    1,    3,    1,    4,    1,    1,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    1,
@@ -702,172 +702,172 @@ static const YY_CHAR yy_meta[77] =
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    1
+        5,    5,    5,    5,    5,    1,    6
     } ;
 
-static const flex_int16_t yy_base[694] =
+static const flex_int16_t yy_base[695] =
     {   0,
-        0,    0,  522,  422,  378, 1467,   75,   77,  356,    0,
-     1467, 1467,   73,   72,   84,   83,  355,  344,   80,   80,
-       89,  134,  126,  179,   75,   87,  189,   76,   95,  139,
-      142,  168,  219,  181,    0,  233,  273,  316,   87,  203,
-      150,  104,  288,    0,  355,  161, 1467,  355,    0,  345,
-      302,  374,  385, 1467, 1467, 1467, 1467,    0,  142,  140,
-      224,  242,  174,  202,  294,  216,  230,    0,  290,  246,
-      306,  318,  235,  363,  383,  237,  237,  262,  260,  387,
-      307,  389,  300,  314,  315,  375,  317,  373,  381,  382,
-      381,  385,  380,    0,  395,  390,  430,  394,  428,  413,
-
-      433,  429,  440,  427,  432,  433,  428,  432,  439,  452,
-      450,    0,  453,  438,  454,  442,  461,  483,  449,  490,
-      486,  482,  487,  494,  497,  490,  499,  483,  501,  501,
-      521,  503,  497,  495,  539,  540,  512,  508,  535,  541,
-      543,  530,  550, 1467,    0, 1467, 1467,    0,  317,  600,
-        0,  549,    0,  550,  544,    0,  556,    0,  543,  562,
-      576,  591,  589,  590,  600,  586,  585,  594,  588,  584,
-      609,  592,  594,  608,  595,  603,  607,  616,  640,  616,
-      616,  602,  621,  608,  620,  638,    0,  653,  650,  653,
-      638,  646,  641,  642,  657,  662,  652,  660,  653,  655,
-
-      666,  648,  662,  662,  654,  657,  665,  662,  673,  674,
-      694,  702,  687,  695,    0,  690,  706,  703,  709,  713,
-      708,  709,  697,  699,  699,    0,  720,  710,  705,  706,
-      722,  723,  711,  752,  716,  755,  719,  726,  749,  757,
-      762,  744,  757,  754,  748,  763,  754,  765,    0,  755,
-      751,  759,  764,  757,  758,  767,  765,  762,  769,  779,
-        0,  772,  802,  772,  800,  797,  817,  805,  799,  818,
-      799,  803,  810,  817,  808,  296,  809,  811,  805,  806,
-      814,  819,  830,  822,  832,    0,  837,    0,    0,  839,
-      828,  852,  848,    0,  849,  851,  866,  852,    0,  861,
-
-      861,  854,  856,  876,  860,  876,  871,  869,    0,    0,
-      878,  867,  868,  864,  866,  886,  888,  885,    0,  871,
-      877,  885,  894,    0,    0,  914,  904,    0,  909,    0,
-      905,  920,  908,  903,  910,  911,  923,    0,  919,    0,
-        0,    0,  912,    0,  921,  929,    0,  930,  917,  930,
-      921,  931,    0,  940,  939,  927,  928,    0,  935,  940,
-        0,  964,  973,  976,  973,    0,  961,  967,  963,  962,
-      981,    0,  971,  971,  983,  982,    0,    0,  976,  984,
-      981,  986,  977,    0,    0,  974,  975,    0,  992,  976,
-      984,  978,  999,  982,  996, 1018, 1020,    0, 1010,    0,
-
-     1027,    0, 1014,  275,    0,    0, 1008,    0, 1030,    0,
-     1031, 1017, 1037, 1035, 1037, 1027, 1022, 1028, 1039,    0,
-     1031, 1037, 1032, 1047, 1037, 1046,    0, 1043, 1033, 1040,
-     1051, 1048, 1072, 1062, 1065, 1067, 1078, 1085,    0,    0,
-     1066, 1083, 1071, 1080, 1074, 1087,    0,    0, 1075,    0,
-        0, 1076, 1092, 1079, 1087,    0,    0, 1096,    0,    0,
-     1097, 1084, 1104, 1086, 1099, 1088,    0,    0, 1105, 1091,
-     1127, 1118, 1121,    0, 1135, 1136, 1133,    0, 1142, 1143,
-     1141, 1126,    0, 1138, 1144, 1148, 1131, 1133, 1132, 1152,
-     1153, 1141,    0, 1151, 1153, 1154,    0, 1141, 1160, 1161,
-
-        0,    0,  267, 1159,    0, 1151,    0, 1171, 1185, 1173,
-     1175,    0, 1183,    0, 1176, 1184, 1195, 1187, 1180,    0,
-     1199,    0, 1199,    0, 1189,    0,    0, 1199,    0, 1191,
-     1186, 1198, 1194,    0,    0,    0,    0,    0,    0, 1191,
-     1205, 1210,    0,    0, 1194,    0, 1202,    0, 1214,    0,
-     1196, 1209, 1210, 1234, 1219, 1233,    0, 1245, 1246, 1231,
-     1232,    0, 1238,    0, 1241,    0, 1253, 1254, 1253, 1237,
-     1254,    0,    0,    0,    0, 1241, 1248,  269,    0,    0,
-        0,    0, 1256,    0,    0,  175, 1257, 1262,    0,    0,
-     1259, 1245, 1260,    0,    0,    0, 1254,    0,    0, 1266,
-
-     1258,    0,    0, 1254, 1268, 1278, 1284,    0,    0, 1298,
-     1282, 1292,    0,    0, 1284,    0, 1287, 1293, 1287, 1303,
-     1304,    0,    0,  269, 1292, 1331,    0, 1293,    0,    0,
-        0, 1307, 1295,    0,    0, 1298, 1303, 1311, 1314,    0,
-        0,    0, 1296, 1307, 1315,    0, 1322,  263,  183, 1312,
-     1333,    0,    0, 1320,    0,    0, 1328,    0,    0, 1337,
-        0,  257, 1375, 1334,    0,    0,    0, 1344,  253, 1358,
-     1467,    0,  221, 1342,  221, 1336,  216, 1353,  211, 1349,
-      205, 1357,  172, 1467,  173,  157, 1467, 1467, 1446, 1451,
-      125, 1456, 1461
+        0,    0,   71,   72,  368, 1477,   78,   80,  345,    0,
+     1477, 1477,   76,   75,   87,   86,  342,  307,  124,   82,
+       87,  132,  132,  183,   78,  130,  174,   74,   87,  170,
+      185,  188,  220,  217,    0,  239,  279,  322,  233,  112,
+      188,   88,  235,    0,  303, 1477,  118, 1477,  289,    0,
+      273,  308,  380,  391, 1477, 1477, 1477, 1477,    0,  121,
+      129,  231,  279,  136,  202,  309,  226,  224,    0,  274,
+      245,  312,  303,  232,  313,  388,  374,  237,  249,  293,
+      392,  329,  394,  322,  324,  375,  386,  386,  390,  390,
+      391,  389,  395,  391,    0,  404,  399,  439,  430,  436,
+
+      421,  441,  437,  448,  434,  440,  441,  436,  437,  449,
+      462,  458,    0,  461,  446,  462,  450,  468,  492,  484,
+      498,  493,  490,  495,  502,  505,  498,  507,  491,  509,
+      509,  529,  511,  505,  503,  547,  548,  547,  543,  543,
+      549,  551,  538,  558, 1477,    0, 1477, 1477,    0,  269,
+      608,    0,  557,    0,  558,  552,    0,  564,    0,  551,
+      597,  584,  599,  597,  598,  608,  594,  593,  602,  596,
+      592,  617,  600,  602,  616,  603,  611,  615,  624,  648,
+      624,  624,  610,  629,  616,  655,  646,    0,  661,  658,
+      661,  646,  654,  649,  650,  665,  670,  660,  668,  661,
+
+      663,  674,  656,  670,  670,  662,  665,  673,  670,  681,
+      702,  709,  710,  695,  703,    0,  698,  714,  711,  717,
+      721,  716,  717,  705,  707,  707,    0,  728,  718,  713,
+      714,  730,  731,  719,  760,  724,  763,  727,  761,  757,
+      765,  770,  752,  765,  762,  756,  771,  762,  773,    0,
+      763,  759,  767,  772,  765,  766,  775,  773,  770,  777,
+      787,    0,  780,  810,  805,  808,  807,  825,  813,  807,
+      826,  807,  811,  818,  825,  816,  266,  817,  819,  813,
+      814,  822,  827,  838,  830,  840,    0,  845,    0,    0,
+      847,  856,  865,  858,    0,  857,  859,  874,  860,    0,
+
+      869,  869,  862,  864,  884,  868,  884,  879,  877,    0,
+        0,  886,  875,  876,  872,  874,  894,  896,  893,    0,
+      879,  885,  893,  922,    0,    0,  927,  914,    0,  917,
+        0,  913,  928,  916,  911,  918,  919,  931,    0,  927,
+        0,    0,    0,  920,    0,  929,  937,    0,  938,  925,
+      938,  929,  939,    0,  948,  947,  935,  936,    0,  943,
+      968,    0,  977,  983,  984,  981,    0,  969,  975,  971,
+      970,  989,    0,  979,  979,  991,  990,    0,    0,  984,
+      992,  989,  994,  985,    0,    0,  982,  983,    0, 1000,
+      984,  992,  986, 1007,  990, 1024, 1031, 1030,    0, 1018,
+
+        0, 1035,    0, 1022,  264,    0,    0, 1016,    0, 1038,
+        0, 1039, 1025, 1045, 1043, 1045, 1035, 1030, 1036, 1047,
+        0, 1039, 1045, 1040, 1055, 1045, 1054,    0, 1051, 1041,
+     1048, 1059, 1076, 1085, 1072, 1073, 1075, 1086, 1093,    0,
+        0, 1074, 1091, 1079, 1088, 1082, 1095,    0,    0, 1083,
+        0,    0, 1084, 1100, 1087, 1095,    0,    0, 1104,    0,
+        0, 1105, 1092, 1112, 1094, 1107, 1096,    0,    0, 1113,
+     1119, 1140, 1128, 1129,    0, 1143, 1144, 1141,    0, 1150,
+     1151, 1149, 1134,    0, 1146, 1152, 1156, 1139, 1141, 1140,
+     1160, 1161, 1149,    0, 1159, 1161, 1162,    0, 1149, 1168,
+
+     1169,    0,    0,  213, 1167,    0, 1179,    0, 1184, 1195,
+     1181, 1183,    0, 1191,    0, 1184, 1192, 1203, 1195, 1188,
+        0, 1207,    0, 1207,    0, 1197,    0,    0, 1207,    0,
+     1199, 1194, 1206, 1202,    0,    0,    0,    0,    0,    0,
+     1199, 1213, 1218,    0,    0, 1202,    0, 1210,    0, 1222,
+        0, 1204, 1217, 1238, 1247, 1229, 1241,    0, 1253, 1254,
+     1239, 1240,    0, 1246,    0, 1249,    0, 1261, 1262, 1261,
+     1245, 1262,    0,    0,    0,    0, 1249, 1256,  209,    0,
+        0,    0,    0, 1264,    0,    0,  120, 1265, 1270,    0,
+        0, 1267, 1253, 1268,    0,    0,    0, 1262,    0,    0,
+
+     1274, 1266,    0,    0, 1262, 1296, 1291, 1294,    0,    0,
+     1306, 1290, 1300,    0,    0, 1292,    0, 1295, 1301, 1295,
+     1311, 1312,    0,    0,  203, 1300, 1339,    0, 1301,    0,
+        0,    0, 1315, 1303,    0,    0, 1306, 1311, 1319, 1322,
+        0,    0,    0, 1304, 1315, 1323,    0, 1330,  191,  123,
+     1331, 1342,    0,    0, 1336,    0,    0, 1341,    0,    0,
+     1347,    0,  173, 1383, 1342,    0,    0,    0, 1352,  166,
+     1366, 1477,    0,  168, 1350,  167, 1344,  158, 1361,  117,
+     1357,  118, 1365,  114, 1477,  121,  110, 1477, 1477, 1454,
+     1460,  111, 1465, 1470
 
     } ;
 
-static const flex_int16_t yy_def[694] =
+static const flex_int16_t yy_def[695] =
     {   0,
-      688,    1,  689,  689,  688,  688,  688,  688,  688,  690,
-      688,  688,  688,  688,  688,  688,  688,  688,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  688,  692,  688,  688,  688,  690,  693,  688,
-      688,  688,  688,  688,  688,  688,  688,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  688,  692,  688,  688,  693,  688,  688,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  688,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-
-      691,  691,  691,  688,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-
-      691,  691,  688,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  688,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  688,  691,  688,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  691,  691,  691,  691,  691,  691,  688,  691,  688,
-      691,  691,  691,  691,  691,  691,  691,  691,  691,  691,
-      691,  688,  688,  688,  691,  691,  691,  691,  688,  688,
-      688,  691,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,    0,  688,  688,
-      688,  688,  688
+      689,    1,  690,  690,  689,  689,  689,  689,  689,  691,
+      689,  689,  689,  689,  689,  689,  689,  689,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  689,  693,  689,  689,  689,  689,  691,  694,
+      689,  689,  689,  689,  689,  689,  689,  689,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  689,  693,  689,  689,  694,  689,
+      689,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  689,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  689,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  689,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  689,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  689,  692,  689,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  689,  692,
+      689,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  689,  689,  689,  692,  692,  692,  692,  689,
+      689,  689,  692,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,    0,  689,
+      689,  689,  689,  689
 
     } ;
 
-static const flex_int16_t yy_nxt[1544] =
+static const flex_int16_t yy_nxt[1555] =
     {   0,
         6,    7,    8,    9,   10,   11,   12,   13,   14,   15,
        15,   15,   15,   15,   15,   15,   15,   15,   15,   16,
@@ -876,172 +876,173 @@ static const flex_int16_t yy_nxt[1544] =
        37,   38,   39,   40,   41,   35,   42,   35,    6,   19,
        20,   21,   22,   23,   24,   25,   26,   27,   28,   29,
        30,   31,   32,   33,   34,   35,   36,   37,   38,   39,
-       40,   41,   35,   42,   35,   43,   46,   46,   46,   46,
-       49,   51,   51,   51,   51,   51,   51,   51,   51,   51,
-       51,   50,   52,   53,   53,   53,   53,   53,   53,   53,
-
-       53,   53,   53,   54,   55,   59,   65,   60,   89,   91,
-       66,   69,   99,   61,   90,   62,   67,   92,   70,   63,
-       64,  100,  136,   93,  137,   71,   68,  138,   72,   58,
-      143,   73,   59,   65,   60,   89,   91,   66,   69,   99,
-       61,   90,   62,   67,   92,   70,   63,   64,  100,  136,
-       93,  137,   71,   68,  138,   72,   74,  143,   73,   79,
-       75,   80,   46,   46,   76,  101,   81,  151,  104,  102,
-       77,   82,  105,   78,  687,  103,  626,  626,  106,  141,
-      142,  152,  686,   74,  663,  663,   79,   75,   80,  685,
-      107,   76,  101,   81,  151,  104,  102,   77,   82,  105,
-
-       78,   83,  103,  116,  108,  106,  141,  142,  152,   84,
-      109,  110,   85,  157,  117,   86,   94,  107,   87,  683,
-      118,   88,   95,   96,   97,  139,  158,  681,   83,   98,
-      116,  108,  679,  140,  677,  675,   84,  109,  110,   85,
-      157,  117,   86,   94,  162,   87,  111,  118,   88,   95,
-       96,   97,  139,  158,  112,  119,   98,  153,  113,  120,
-      140,  114,  115,  121,  155,  154,  163,  156,  166,  122,
-      673,  162,  669,  111,  173,  662,  181,  182,  648,  183,
-      624,  112,  119,  578,  153,  113,  120,  503,  114,  115,
-      121,  155,  154,  163,  156,  166,  122,  123,  184,  124,
-
-      185,  173,  125,  181,  182,  126,  183,  127,  404,  128,
-      129,   51,   51,   51,   51,   51,   51,   51,   51,   51,
-       51,  159,  160,  164,  123,  184,  124,  185,  276,  125,
-      165,  188,  126,  194,  127,  161,  128,  129,  130,  167,
-      168,  169,  131,  170,  171,  132,  133,  195,  159,  160,
-      164,  196,  134,  199,  172,  135,  149,  165,  188,  147,
-      194,  146,  161,  144,   57,  130,  167,  168,  169,  131,
-      170,  171,  132,  133,  195,   56,   47,  688,  196,  134,
-      199,  172,  135,  150,  150,  150,  150,  150,  150,  150,
-      150,  150,  150,   52,   53,   53,   53,   53,   53,   53,
-
-       53,   53,   53,   53,  174,  176,  200,  177,  197,  175,
-      178,  186,  187,  189,  198,  190,  179,  201,  202,  191,
-      205,  203,  206,  180,  204,  207,  192,  208,   45,  213,
-      193,  174,  176,  200,  177,  197,  175,  178,  186,  187,
-      189,  198,  190,  179,  201,  202,  191,  205,  203,  206,
-      180,  204,  207,  192,  208,  209,  213,  193,  214,  215,
-      216,  217,  219,  218,  220,  210,  222,  223,  224,  225,
-      211,  212,  228,  226,  229,  221,  227,  230,  231,  232,
-      233,  234,  209,  235,  238,  214,  215,  216,  217,  219,
-      218,  220,  210,  222,  223,  224,  225,  211,  212,  228,
-
-      226,  229,  221,  227,  230,  231,  232,  233,  234,  236,
-      235,  238,  239,  237,  243,  244,  246,  240,  247,  250,
-      252,  253,  254,  255,  256,  241,  245,  248,   45,  259,
-      242,  260,  261,  251,  688,  249,  236,  267,  268,  239,
-      237,  243,  244,  246,  240,  247,  250,  252,  253,  254,
-      255,  256,  241,  245,  248,  257,  259,  242,  260,  261,
-      251,  262,  249,  264,  267,  268,  258,  271,  269,  273,
-      265,  274,  275,  266,  270,  277,  278,  279,  280,  281,
-      272,  263,  257,  688,  688,  688,  688,  688,  262,  688,
-      264,  688,  282,  258,  271,  269,  273,  265,  274,  275,
-
-      266,  270,  277,  278,  279,  280,  281,  272,  263,  150,
-      150,  150,  150,  150,  150,  150,  150,  150,  150,  282,
-      283,  284,  285,  286,  287,  290,  288,  291,  292,  293,
-      294,  295,  296,  297,  298,  299,  300,  301,  302,  688,
-      305,  289,  306,  307,  308,  309,  310,  283,  284,  285,
-      286,  287,  290,  288,  291,  292,  293,  294,  295,  296,
-      297,  298,  299,  300,  301,  302,  303,  305,  289,  306,
-      307,  308,  309,  310,  311,  312,  313,  314,  315,  316,
-      317,  304,  318,  319,  320,  321,  322,  324,  325,  326,
-      327,  328,  329,  303,  323,  330,  331,  332,  333,  334,
-
-      335,  311,  312,  313,  314,  315,  316,  317,  304,  318,
-      319,  320,  321,  322,  324,  325,  326,  327,  328,  329,
-      336,  323,  330,  331,  332,  333,  334,  335,  337,  339,
-      340,  341,  342,  343,  344,  345,  347,  348,  338,  349,
-      350,  351,  352,  353,  354,  346,  355,  336,  356,  357,
-      358,  361,  688,  364,  365,  337,  339,  340,  341,  342,
-      343,  344,  345,  347,  348,  338,  349,  350,  351,  352,
-      353,  354,  346,  355,  359,  356,  357,  358,  361,  362,
-      364,  365,  366,  367,  368,  369,  370,  371,  372,  373,
-      374,  375,  363,  360,  376,  377,  378,  379,  380,  381,
-
-      382,  359,  383,  384,  385,  386,  362,  387,  390,  366,
-      367,  368,  369,  370,  371,  372,  373,  374,  375,  363,
-      360,  376,  377,  378,  379,  380,  381,  382,  388,  383,
-      384,  385,  386,  393,  387,  390,  391,  389,  392,  394,
-      395,  396,  397,  398,  399,  400,  402,  403,  405,  401,
-      406,  407,  408,  409,  410,  388,  411,  412,  413,  414,
-      393,  415,  416,  391,  389,  392,  394,  395,  396,  397,
-      398,  399,  400,  402,  403,  405,  401,  406,  407,  408,
-      409,  410,  417,  411,  412,  413,  414,  418,  415,  416,
-      419,  420,  421,  422,  423,  424,  425,  426,  427,  428,
-
-      429,  430,  431,  432,  433,  434,  435,  436,  437,  417,
-      438,  439,  440,  441,  418,  442,  443,  419,  420,  421,
+       40,   41,   35,   42,   35,   43,    6,   45,   45,   47,
+       47,   47,   47,   50,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   51,   53,   54,   54,   54,   54,
+
+       54,   54,   54,   54,   54,   54,   55,   56,   66,   70,
+      100,   90,   67,  101,  144,   59,   71,   91,   68,   47,
+       47,  627,  627,   72,  664,  664,   73,  688,   69,   74,
+      687,  686,  684,  682,  140,   66,   70,  100,   90,   67,
+      101,  144,  141,   71,   91,   68,  152,   46,   46,   60,
+       72,   61,   92,   73,   75,   69,   74,   62,   76,   63,
+       93,  140,   77,   64,   65,   80,   94,   81,   78,  141,
+      153,   79,   82,  152,  680,  158,   60,   83,   61,   92,
+      678,   75,  676,  674,   62,   76,   63,   93,  670,   77,
+       64,   65,   80,   94,   81,   78,  102,  153,   79,   82,
+
+      103,   95,  158,  663,   83,   84,  104,   96,   97,   98,
+      108,  105,  649,   85,   99,  106,   86,  142,  143,   87,
+      625,  107,   88,  102,  109,   89,  159,  103,   95,  579,
+      110,  111,   84,  104,   96,   97,   98,  108,  105,  117,
+       85,   99,  106,   86,  142,  143,   87,  112,  107,   88,
+      118,  109,   89,  159,  163,  113,  119,  110,  111,  114,
+      164,  120,  115,  116,  154,  121,  117,  167,  137,  122,
+      138,  174,  155,  139,  112,  123,  504,  118,  405,  184,
+      277,  163,  113,  119,  150,  185,  114,  164,  120,  115,
+      116,  154,  121,  148,  167,  137,  122,  138,  174,  155,
+
+      139,  156,  123,  124,  157,  125,  184,  165,  126,  147,
+      145,  127,  185,  128,  166,  129,  130,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   58,  156,  172,
+      124,  157,  125,  186,  165,  126,  160,  161,  127,  173,
+      128,  166,  129,  130,  131,  168,  169,  170,  132,  171,
+      162,  133,  134,  189,  175,  195,  172,  196,  135,  176,
+      186,  136,   57,  160,  161,   48,  173,  689,  689,  689,
+      689,  131,  168,  169,  170,  132,  171,  162,  133,  134,
+      189,  175,  195,  689,  196,  135,  176,  689,  136,  151,
+      151,  151,  151,  151,  151,  151,  151,  151,  151,   53,
+
+       54,   54,   54,   54,   54,   54,   54,   54,   54,   54,
+      177,  197,  178,  182,  183,  179,  187,  188,  190,  198,
+      191,  180,  200,  201,  192,  199,  202,  203,  181,  204,
+      206,  193,  205,  207,  208,  194,  209,  177,  197,  178,
+      182,  183,  179,  187,  188,  190,  198,  191,  180,  200,
+      201,  192,  199,  202,  203,  181,  204,  206,  193,  205,
+      207,  208,  194,  209,  210,  214,  215,  216,  217,  218,
+      220,  219,  221,  223,  211,  224,  225,  226,  227,  212,
+      213,  228,  229,  222,  230,  231,  232,  233,  234,  235,
+      236,  210,  214,  215,  216,  217,  218,  220,  219,  221,
+
+      223,  211,  224,  225,  226,  227,  212,  213,  228,  229,
+      222,  230,  231,  232,  233,  234,  235,  236,  237,  239,
+      240,  244,  238,  245,  247,  241,  248,  251,  253,  254,
+      255,  256,  257,  242,  246,  249,  689,  260,  243,  261,
+      262,  252,  689,  250,  689,  237,  239,  240,  244,  238,
+      245,  247,  241,  248,  251,  253,  254,  255,  256,  257,
+      242,  246,  249,  258,  260,  243,  261,  262,  252,  263,
+      250,  265,  268,  269,  259,  272,  270,  274,  266,  275,
+      276,  267,  271,  278,  279,  280,  281,  282,  273,  264,
+      258,  689,  689,  689,  689,  689,  263,  689,  265,  268,
+
+      269,  259,  272,  270,  274,  266,  275,  276,  267,  271,
+      278,  279,  280,  281,  282,  273,  264,  151,  151,  151,
+      151,  151,  151,  151,  151,  151,  151,  283,  284,  285,
+      286,  287,  288,  291,  289,  292,  293,  294,  295,  296,
+      297,  298,  299,  300,  301,  302,  303,  689,  306,  290,
+      307,  308,  309,  310,  283,  284,  285,  286,  287,  288,
+      291,  289,  292,  293,  294,  295,  296,  297,  298,  299,
+      300,  301,  302,  303,  304,  306,  290,  307,  308,  309,
+      310,  311,  312,  313,  314,  315,  316,  317,  318,  305,
+      319,  320,  321,  322,  323,  325,  326,  327,  328,  329,
+
+      330,  304,  324,  331,  332,  333,  334,  335,  311,  312,
+      313,  314,  315,  316,  317,  318,  305,  319,  320,  321,
+      322,  323,  325,  326,  327,  328,  329,  330,  336,  324,
+      331,  332,  333,  334,  335,  337,  338,  340,  341,  342,
+      343,  344,  345,  346,  348,  349,  339,  350,  351,  352,
+      353,  354,  355,  347,  356,  336,  357,  358,  359,  362,
+      689,  365,  337,  338,  340,  341,  342,  343,  344,  345,
+      346,  348,  349,  339,  350,  351,  352,  353,  354,  355,
+      347,  356,  360,  357,  358,  359,  362,  363,  365,  366,
+      367,  368,  369,  370,  371,  372,  373,  374,  375,  376,
+
+      364,  361,  377,  378,  379,  380,  381,  382,  383,  360,
+      384,  385,  386,  387,  363,  388,  366,  367,  368,  369,
+      370,  371,  372,  373,  374,  375,  376,  364,  361,  377,
+      378,  379,  380,  381,  382,  383,  389,  384,  385,  386,
+      387,  391,  388,  394,  392,  390,  393,  395,  396,  397,
+      398,  399,  400,  401,  403,  404,  406,  402,  407,  408,
+      409,  410,  411,  389,  412,  413,  414,  415,  391,  416,
+      394,  392,  390,  393,  395,  396,  397,  398,  399,  400,
+      401,  403,  404,  406,  402,  407,  408,  409,  410,  411,
+      417,  412,  413,  414,  415,  418,  416,  419,  420,  421,
+
       422,  423,  424,  425,  426,  427,  428,  429,  430,  431,
-      432,  433,  434,  435,  436,  437,  444,  438,  439,  440,
-      441,  445,  442,  443,  446,  447,  448,  449,  450,  451,
-      452,  453,  455,  456,  457,  458,  459,  460,  461,  462,
-      463,  464,  454,  444,  465,  466,  467,  468,  445,  469,
-      470,  446,  447,  448,  449,  450,  451,  452,  453,  455,
-      456,  457,  458,  459,  460,  461,  462,  463,  464,  454,
-      471,  465,  466,  467,  468,  472,  469,  470,  473,  474,
-
-      475,  476,  477,  478,  479,  480,  481,  482,  483,  484,
-      485,  486,  487,  488,  489,  490,  491,  471,  492,  493,
-      494,  495,  472,  496,  497,  473,  474,  475,  476,  477,
+      432,  433,  434,  435,  436,  437,  438,  417,  439,  440,
+      441,  442,  418,  443,  419,  420,  421,  422,  423,  424,
+      425,  426,  427,  428,  429,  430,  431,  432,  433,  434,
+      435,  436,  437,  438,  444,  439,  440,  441,  442,  445,
+      443,  446,  447,  448,  449,  450,  451,  452,  453,  454,
+      456,  457,  458,  459,  460,  461,  462,  463,  464,  465,
+      455,  444,  466,  467,  468,  469,  445,  470,  446,  447,
+      448,  449,  450,  451,  452,  453,  454,  456,  457,  458,
+      459,  460,  461,  462,  463,  464,  465,  455,  471,  466,
+
+      467,  468,  469,  472,  470,  473,  474,  475,  476,  477,
       478,  479,  480,  481,  482,  483,  484,  485,  486,  487,
-      488,  489,  490,  491,  498,  492,  493,  494,  495,  499,
-      496,  497,  500,  501,  502,  504,  505,  506,  507,  508,
-      509,  510,  511,  512,  513,  514,  515,  516,  517,  518,
-      519,  498,  520,  521,  522,  523,  499,  524,  525,  500,
-      501,  502,  504,  505,  506,  507,  508,  509,  510,  511,
-      512,  513,  514,  515,  516,  517,  518,  519,  526,  520,
-
-      521,  522,  523,  527,  524,  525,  528,  529,  530,  531,
-      532,  533,  534,  535,  536,  537,  538,  539,  540,  541,
-      543,  544,  542,  545,  546,  526,  547,  548,  549,  550,
-      527,  551,  552,  528,  529,  530,  531,  532,  533,  534,
-      535,  536,  537,  538,  539,  540,  541,  543,  544,  542,
-      545,  546,  553,  547,  548,  549,  550,  554,  551,  552,
-      555,  556,  557,  558,  559,  560,  561,  562,  563,  564,
-      565,  566,  567,  568,  569,  570,  571,  572,  573,  553,
-      574,  575,  576,  577,  554,  579,  580,  555,  556,  557,
+      488,  489,  490,  491,  492,  471,  493,  494,  495,  496,
+      472,  497,  473,  474,  475,  476,  477,  478,  479,  480,
+      481,  482,  483,  484,  485,  486,  487,  488,  489,  490,
+      491,  492,  498,  493,  494,  495,  496,  499,  497,  500,
+      501,  502,  503,  505,  506,  507,  508,  509,  510,  511,
+      512,  513,  514,  515,  516,  517,  518,  519,  520,  498,
+      521,  522,  523,  524,  499,  525,  500,  501,  502,  503,
+      505,  506,  507,  508,  509,  510,  511,  512,  513,  514,
+
+      515,  516,  517,  518,  519,  520,  526,  521,  522,  523,
+      524,  527,  525,  528,  529,  530,  531,  532,  533,  534,
+      535,  536,  537,  538,  539,  540,  541,  542,  544,  545,
+      543,  546,  547,  526,  548,  549,  550,  551,  527,  552,
+      528,  529,  530,  531,  532,  533,  534,  535,  536,  537,
+      538,  539,  540,  541,  542,  544,  545,  543,  546,  547,
+      553,  548,  549,  550,  551,  554,  552,  555,  556,  557,
       558,  559,  560,  561,  562,  563,  564,  565,  566,  567,
+      568,  569,  570,  571,  572,  573,  574,  553,  575,  576,
+      577,  578,  554,  580,  555,  556,  557,  558,  559,  560,
 
-      568,  569,  570,  571,  572,  573,  581,  574,  575,  576,
-      577,  582,  579,  580,  583,  584,  585,  586,  587,  588,
-      589,  590,  591,  592,  593,  594,  595,  596,  597,  598,
-      599,  600,  601,  581,  602,  603,  604,  605,  582,  606,
-      607,  583,  584,  585,  586,  587,  588,  589,  590,  591,
+      561,  562,  563,  564,  565,  566,  567,  568,  569,  570,
+      571,  572,  573,  574,  581,  575,  576,  577,  578,  582,
+      580,  583,  584,  585,  586,  587,  588,  589,  590,  591,
       592,  593,  594,  595,  596,  597,  598,  599,  600,  601,
-      608,  602,  603,  604,  605,  609,  606,  607,  610,  611,
-      612,  613,  614,  615,  616,  617,  618,  619,  620,  621,
-      622,  623,  625,  627,  628,  629,  630,  608,  631,  632,
-      633,  634,  609,  635,  636,  610,  611,  612,  613,  614,
-
-      615,  616,  617,  618,  619,  620,  621,  622,  623,  625,
-      627,  628,  629,  630,  637,  631,  632,  633,  634,  638,
-      635,  636,  639,  640,  641,  642,  643,  644,  645,  646,
-      647,  649,  626,  626,  651,  652,  653,  654,  655,  656,
-      657,  637,  658,  688,  659,  660,  638,  661,  664,  639,
-      640,  641,  642,  643,  644,  645,  646,  647,  649,  665,
-      666,  651,  652,  653,  654,  655,  656,  657,  667,  658,
-      650,  659,  660,  668,  661,  664,  663,  663,  671,  672,
-      674,  676,  678,  680,  682,  684,  665,  666,  688,  688,
-      688,  688,  688,  688,  688,  667,  688,  650,  688,  688,
-
-      668,  688,  688,  688,  688,  671,  672,  674,  676,  678,
-      680,  682,  684,  688,  688,  688,  688,  688,  670,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  670,   44,   44,   44,   44,
-       44,   48,  688,  688,   48,   48,  145,  145,  145,  688,
-      145,  148,  688,  148,  148,  148,    5,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688
+      602,  581,  603,  604,  605,  606,  582,  607,  583,  584,
+      585,  586,  587,  588,  589,  590,  591,  592,  593,  594,
+      595,  596,  597,  598,  599,  600,  601,  602,  608,  603,
+      604,  605,  606,  609,  607,  610,  611,  612,  613,  614,
+      615,  616,  617,  618,  619,  620,  621,  622,  623,  624,
+      626,  628,  629,  630,  631,  608,  632,  633,  634,  635,
+
+      609,  636,  610,  611,  612,  613,  614,  615,  616,  617,
+      618,  619,  620,  621,  622,  623,  624,  626,  628,  629,
+      630,  631,  637,  632,  633,  634,  635,  638,  636,  639,
+      640,  641,  642,  643,  644,  645,  646,  647,  648,  650,
+      627,  627,  652,  653,  654,  655,  656,  657,  658,  637,
+      659,  689,  660,  661,  638,  662,  639,  640,  641,  642,
+      643,  644,  645,  646,  647,  648,  650,  665,  666,  652,
+      653,  654,  655,  656,  657,  658,  667,  659,  651,  660,
+      661,  668,  662,  669,  664,  664,  672,  673,  675,  677,
+      679,  681,  683,  685,  665,  666,  689,  689,  689,  689,
+
+      689,  689,  689,  667,  689,  651,  689,  689,  668,  689,
+      669,  689,  689,  672,  673,  675,  677,  679,  681,  683,
+      685,  689,  689,  689,  689,  689,  671,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  671,   44,   44,   44,   44,   44,   44,
+       49,  689,  689,   49,   49,  146,  146,  146,  689,  146,
+      149,  689,  149,  149,  149,  149,    5,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689
     } ;
 
-static const flex_int16_t yy_chk[1544] =
+static const flex_int16_t yy_chk[1555] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -1050,169 +1051,170 @@ static const flex_int16_t yy_chk[1544] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    7,    7,    8,    8,
-       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
-       14,   13,   15,   15,   15,   15,   15,   15,   15,   15,
-
-       15,   15,   15,   16,   16,   19,   20,   19,   25,   26,
-       20,   21,   28,   19,   25,   19,   20,   26,   21,   19,
-       19,   29,   39,   26,   39,   21,   20,   39,   21,  691,
-       42,   21,   19,   20,   19,   25,   26,   20,   21,   28,
-       19,   25,   19,   20,   26,   21,   19,   19,   29,   39,
-       26,   39,   21,   20,   39,   21,   22,   42,   21,   23,
-       22,   23,   46,   46,   22,   30,   23,   59,   31,   30,
-       22,   23,   31,   22,  686,   30,  586,  586,   31,   41,
-       41,   60,  685,   22,  649,  649,   23,   22,   23,  683,
-       32,   22,   30,   23,   59,   31,   30,   22,   23,   31,
-
-       22,   24,   30,   34,   32,   31,   41,   41,   60,   24,
-       32,   32,   24,   63,   34,   24,   27,   32,   24,  681,
-       34,   24,   27,   27,   27,   40,   64,  679,   24,   27,
-       34,   32,  677,   40,  675,  673,   24,   32,   32,   24,
-       63,   34,   24,   27,   66,   24,   33,   34,   24,   27,
-       27,   27,   40,   64,   33,   36,   27,   61,   33,   36,
-       40,   33,   33,   36,   62,   61,   67,   62,   70,   36,
-      669,   66,  662,   33,   73,  648,   76,   76,  624,   77,
-      578,   33,   36,  503,   61,   33,   36,  404,   33,   33,
-       36,   62,   61,   67,   62,   70,   36,   37,   78,   37,
-
-       79,   73,   37,   76,   76,   37,   77,   37,  276,   37,
-       37,   51,   51,   51,   51,   51,   51,   51,   51,   51,
-       51,   65,   65,   69,   37,   78,   37,   79,  149,   37,
-       69,   81,   37,   83,   37,   65,   37,   37,   38,   71,
-       71,   71,   38,   71,   72,   38,   38,   84,   65,   65,
-       69,   85,   38,   87,   72,   38,   50,   69,   81,   48,
-       83,   45,   65,   43,   18,   38,   71,   71,   71,   38,
-       71,   72,   38,   38,   84,   17,    9,    5,   85,   38,
-       87,   72,   38,   52,   52,   52,   52,   52,   52,   52,
-       52,   52,   52,   53,   53,   53,   53,   53,   53,   53,
-
-       53,   53,   53,   53,   74,   75,   88,   75,   86,   74,
-       75,   80,   80,   82,   86,   82,   75,   89,   90,   82,
-       92,   91,   93,   75,   91,   95,   82,   96,    4,   98,
-       82,   74,   75,   88,   75,   86,   74,   75,   80,   80,
-       82,   86,   82,   75,   89,   90,   82,   92,   91,   93,
-       75,   91,   95,   82,   96,   97,   98,   82,   99,  100,
-      101,  102,  103,  102,  103,   97,  104,  105,  106,  107,
-       97,   97,  109,  108,  110,  103,  108,  111,  113,  114,
-      115,  116,   97,  117,  119,   99,  100,  101,  102,  103,
-      102,  103,   97,  104,  105,  106,  107,   97,   97,  109,
-
-      108,  110,  103,  108,  111,  113,  114,  115,  116,  118,
-      117,  119,  120,  118,  121,  122,  123,  120,  124,  125,
-      126,  127,  128,  129,  130,  120,  122,  124,    3,  132,
-      120,  133,  134,  125,    0,  124,  118,  137,  138,  120,
-      118,  121,  122,  123,  120,  124,  125,  126,  127,  128,
-      129,  130,  120,  122,  124,  131,  132,  120,  133,  134,
-      125,  135,  124,  136,  137,  138,  131,  140,  139,  141,
-      136,  142,  143,  136,  139,  152,  154,  155,  157,  159,
-      140,  135,  131,    0,    0,    0,    0,    0,  135,    0,
-      136,    0,  160,  131,  140,  139,  141,  136,  142,  143,
-
-      136,  139,  152,  154,  155,  157,  159,  140,  135,  150,
-      150,  150,  150,  150,  150,  150,  150,  150,  150,  160,
-      161,  162,  163,  164,  165,  166,  165,  167,  168,  169,
-      170,  171,  172,  173,  174,  175,  176,  177,  178,    0,
-      180,  165,  181,  182,  183,  184,  185,  161,  162,  163,
-      164,  165,  166,  165,  167,  168,  169,  170,  171,  172,
-      173,  174,  175,  176,  177,  178,  179,  180,  165,  181,
-      182,  183,  184,  185,  186,  188,  189,  190,  191,  192,
-      193,  179,  194,  195,  196,  197,  198,  199,  200,  201,
-      202,  203,  204,  179,  198,  205,  206,  207,  208,  209,
-
-      210,  186,  188,  189,  190,  191,  192,  193,  179,  194,
+        1,    1,    1,    1,    1,    1,    1,    3,    4,    7,
+        7,    8,    8,   13,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   13,   15,   15,   15,   15,   15,
+
+       15,   15,   15,   15,   15,   15,   16,   16,   20,   21,
+       28,   25,   20,   29,   42,  692,   21,   25,   20,   47,
+       47,  587,  587,   21,  650,  650,   21,  687,   20,   21,
+      686,  684,  682,  680,   40,   20,   21,   28,   25,   20,
+       29,   42,   40,   21,   25,   20,   60,    3,    4,   19,
+       21,   19,   26,   21,   22,   20,   21,   19,   22,   19,
+       26,   40,   22,   19,   19,   23,   26,   23,   22,   40,
+       61,   22,   23,   60,  678,   64,   19,   23,   19,   26,
+      676,   22,  674,  670,   19,   22,   19,   26,  663,   22,
+       19,   19,   23,   26,   23,   22,   30,   61,   22,   23,
+
+       30,   27,   64,  649,   23,   24,   30,   27,   27,   27,
+       32,   31,  625,   24,   27,   31,   24,   41,   41,   24,
+      579,   31,   24,   30,   32,   24,   65,   30,   27,  504,
+       32,   32,   24,   30,   27,   27,   27,   32,   31,   34,
+       24,   27,   31,   24,   41,   41,   24,   33,   31,   24,
+       34,   32,   24,   65,   67,   33,   34,   32,   32,   33,
+       68,   36,   33,   33,   62,   36,   34,   71,   39,   36,
+       39,   74,   62,   39,   33,   36,  405,   34,  277,   78,
+      150,   67,   33,   34,   51,   79,   33,   68,   36,   33,
+       33,   62,   36,   49,   71,   39,   36,   39,   74,   62,
+
+       39,   63,   36,   37,   63,   37,   78,   70,   37,   45,
+       43,   37,   79,   37,   70,   37,   37,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   18,   63,   73,
+       37,   63,   37,   80,   70,   37,   66,   66,   37,   73,
+       37,   70,   37,   37,   38,   72,   72,   72,   38,   72,
+       66,   38,   38,   82,   75,   84,   73,   85,   38,   75,
+       80,   38,   17,   66,   66,    9,   73,    5,    0,    0,
+        0,   38,   72,   72,   72,   38,   72,   66,   38,   38,
+       82,   75,   84,    0,   85,   38,   75,    0,   38,   53,
+       53,   53,   53,   53,   53,   53,   53,   53,   53,   54,
+
+       54,   54,   54,   54,   54,   54,   54,   54,   54,   54,
+       76,   86,   76,   77,   77,   76,   81,   81,   83,   87,
+       83,   76,   88,   89,   83,   87,   90,   91,   76,   92,
+       93,   83,   92,   94,   96,   83,   97,   76,   86,   76,
+       77,   77,   76,   81,   81,   83,   87,   83,   76,   88,
+       89,   83,   87,   90,   91,   76,   92,   93,   83,   92,
+       94,   96,   83,   97,   98,   99,  100,  101,  102,  103,
+      104,  103,  104,  105,   98,  106,  107,  108,  109,   98,
+       98,  109,  110,  104,  111,  112,  114,  115,  116,  117,
+      118,   98,   99,  100,  101,  102,  103,  104,  103,  104,
+
+      105,   98,  106,  107,  108,  109,   98,   98,  109,  110,
+      104,  111,  112,  114,  115,  116,  117,  118,  119,  120,
+      121,  122,  119,  123,  124,  121,  125,  126,  127,  128,
+      129,  130,  131,  121,  123,  125,    0,  133,  121,  134,
+      135,  126,    0,  125,    0,  119,  120,  121,  122,  119,
+      123,  124,  121,  125,  126,  127,  128,  129,  130,  131,
+      121,  123,  125,  132,  133,  121,  134,  135,  126,  136,
+      125,  137,  138,  139,  132,  141,  140,  142,  137,  143,
+      144,  137,  140,  153,  155,  156,  158,  160,  141,  136,
+      132,    0,    0,    0,    0,    0,  136,    0,  137,  138,
+
+      139,  132,  141,  140,  142,  137,  143,  144,  137,  140,
+      153,  155,  156,  158,  160,  141,  136,  151,  151,  151,
+      151,  151,  151,  151,  151,  151,  151,  161,  162,  163,
+      164,  165,  166,  167,  166,  168,  169,  170,  171,  172,
+      173,  174,  175,  176,  177,  178,  179,    0,  181,  166,
+      182,  183,  184,  185,  161,  162,  163,  164,  165,  166,
+      167,  166,  168,  169,  170,  171,  172,  173,  174,  175,
+      176,  177,  178,  179,  180,  181,  166,  182,  183,  184,
+      185,  186,  187,  189,  190,  191,  192,  193,  194,  180,
       195,  196,  197,  198,  199,  200,  201,  202,  203,  204,
-      211,  198,  205,  206,  207,  208,  209,  210,  212,  213,
-      214,  216,  217,  218,  219,  220,  221,  222,  212,  223,
-      224,  225,  227,  228,  229,  220,  230,  211,  231,  232,
-      233,  235,    0,  237,  238,  212,  213,  214,  216,  217,
-      218,  219,  220,  221,  222,  212,  223,  224,  225,  227,
-      228,  229,  220,  230,  234,  231,  232,  233,  235,  236,
-      237,  238,  239,  240,  241,  242,  243,  244,  245,  246,
-      247,  248,  236,  234,  250,  251,  252,  253,  254,  255,
-
-      256,  234,  257,  258,  259,  260,  236,  262,  264,  239,
-      240,  241,  242,  243,  244,  245,  246,  247,  248,  236,
-      234,  250,  251,  252,  253,  254,  255,  256,  263,  257,
-      258,  259,  260,  266,  262,  264,  265,  263,  265,  267,
-      268,  269,  270,  271,  272,  273,  274,  275,  277,  273,
-      278,  279,  280,  281,  282,  263,  283,  284,  285,  287,
-      266,  290,  291,  265,  263,  265,  267,  268,  269,  270,
-      271,  272,  273,  274,  275,  277,  273,  278,  279,  280,
-      281,  282,  292,  283,  284,  285,  287,  293,  290,  291,
-      295,  296,  297,  298,  300,  301,  302,  303,  304,  305,
-
-      306,  307,  308,  311,  312,  313,  314,  315,  316,  292,
-      317,  318,  320,  321,  293,  322,  323,  295,  296,  297,
-      298,  300,  301,  302,  303,  304,  305,  306,  307,  308,
-      311,  312,  313,  314,  315,  316,  326,  317,  318,  320,
-      321,  327,  322,  323,  329,  331,  332,  333,  334,  335,
-      336,  337,  339,  343,  345,  346,  348,  349,  349,  350,
-      351,  352,  337,  326,  354,  355,  356,  357,  327,  359,
-      360,  329,  331,  332,  333,  334,  335,  336,  337,  339,
-      343,  345,  346,  348,  349,  349,  350,  351,  352,  337,
-      362,  354,  355,  356,  357,  363,  359,  360,  364,  365,
-
-      367,  368,  369,  370,  371,  373,  374,  375,  376,  379,
-      380,  381,  382,  383,  386,  387,  389,  362,  390,  391,
-      392,  393,  363,  394,  395,  364,  365,  367,  368,  369,
-      370,  371,  373,  374,  375,  376,  379,  380,  381,  382,
-      383,  386,  387,  389,  396,  390,  391,  392,  393,  397,
-      394,  395,  399,  401,  403,  407,  409,  411,  412,  413,
-      414,  415,  416,  417,  418,  419,  421,  422,  423,  424,
-      425,  396,  426,  428,  429,  430,  397,  431,  432,  399,
-      401,  403,  407,  409,  411,  412,  413,  414,  415,  416,
-      417,  418,  419,  421,  422,  423,  424,  425,  433,  426,
-
-      428,  429,  430,  434,  431,  432,  435,  436,  437,  438,
-      441,  442,  443,  444,  445,  446,  449,  452,  453,  454,
-      455,  458,  454,  461,  462,  433,  463,  464,  465,  466,
-      434,  469,  470,  435,  436,  437,  438,  441,  442,  443,
-      444,  445,  446,  449,  452,  453,  454,  455,  458,  454,
-      461,  462,  471,  463,  464,  465,  466,  472,  469,  470,
-      473,  475,  476,  477,  479,  480,  481,  482,  484,  485,
-      486,  487,  488,  489,  490,  491,  492,  494,  495,  471,
-      496,  498,  499,  500,  472,  504,  506,  473,  475,  476,
-      477,  479,  480,  481,  482,  484,  485,  486,  487,  488,
-
-      489,  490,  491,  492,  494,  495,  508,  496,  498,  499,
-      500,  509,  504,  506,  510,  511,  513,  515,  516,  517,
-      518,  519,  521,  523,  525,  528,  530,  531,  532,  533,
-      540,  541,  542,  508,  545,  547,  549,  551,  509,  552,
-      553,  510,  511,  513,  515,  516,  517,  518,  519,  521,
-      523,  525,  528,  530,  531,  532,  533,  540,  541,  542,
-      554,  545,  547,  549,  551,  555,  552,  553,  556,  558,
-      559,  560,  561,  563,  565,  567,  568,  569,  570,  571,
-      576,  577,  583,  587,  588,  591,  592,  554,  593,  597,
-      600,  601,  555,  604,  605,  556,  558,  559,  560,  561,
-
-      563,  565,  567,  568,  569,  570,  571,  576,  577,  583,
-      587,  588,  591,  592,  606,  593,  597,  600,  601,  607,
-      604,  605,  610,  611,  612,  615,  617,  618,  619,  620,
-      621,  625,  626,  626,  628,  632,  633,  636,  637,  638,
-      639,  606,  643,    0,  644,  645,  607,  647,  650,  610,
-      611,  612,  615,  617,  618,  619,  620,  621,  625,  651,
-      654,  628,  632,  633,  636,  637,  638,  639,  657,  643,
-      626,  644,  645,  660,  647,  650,  663,  663,  664,  668,
-      670,  674,  676,  678,  680,  682,  651,  654,    0,    0,
-        0,    0,    0,    0,    0,  657,    0,  626,    0,    0,
-
-      660,    0,    0,    0,    0,  664,  668,  670,  674,  676,
-      678,  680,  682,    0,    0,    0,    0,    0,  663,    0,
+
+      205,  180,  199,  206,  207,  208,  209,  210,  186,  187,
+      189,  190,  191,  192,  193,  194,  180,  195,  196,  197,
+      198,  199,  200,  201,  202,  203,  204,  205,  211,  199,
+      206,  207,  208,  209,  210,  212,  213,  214,  215,  217,
+      218,  219,  220,  221,  222,  223,  213,  224,  225,  226,
+      228,  229,  230,  221,  231,  211,  232,  233,  234,  236,
+        0,  238,  212,  213,  214,  215,  217,  218,  219,  220,
+      221,  222,  223,  213,  224,  225,  226,  228,  229,  230,
+      221,  231,  235,  232,  233,  234,  236,  237,  238,  239,
+      240,  241,  242,  243,  244,  245,  246,  247,  248,  249,
+
+      237,  235,  251,  252,  253,  254,  255,  256,  257,  235,
+      258,  259,  260,  261,  237,  263,  239,  240,  241,  242,
+      243,  244,  245,  246,  247,  248,  249,  237,  235,  251,
+      252,  253,  254,  255,  256,  257,  264,  258,  259,  260,
+      261,  265,  263,  267,  266,  264,  266,  268,  269,  270,
+      271,  272,  273,  274,  275,  276,  278,  274,  279,  280,
+      281,  282,  283,  264,  284,  285,  286,  288,  265,  291,
+      267,  266,  264,  266,  268,  269,  270,  271,  272,  273,
+      274,  275,  276,  278,  274,  279,  280,  281,  282,  283,
+      292,  284,  285,  286,  288,  293,  291,  294,  296,  297,
+
+      298,  299,  301,  302,  303,  304,  305,  306,  307,  308,
+      309,  312,  313,  314,  315,  316,  317,  292,  318,  319,
+      321,  322,  293,  323,  294,  296,  297,  298,  299,  301,
+      302,  303,  304,  305,  306,  307,  308,  309,  312,  313,
+      314,  315,  316,  317,  324,  318,  319,  321,  322,  327,
+      323,  328,  330,  332,  333,  334,  335,  336,  337,  338,
+      340,  344,  346,  347,  349,  350,  350,  351,  352,  353,
+      338,  324,  355,  356,  357,  358,  327,  360,  328,  330,
+      332,  333,  334,  335,  336,  337,  338,  340,  344,  346,
+      347,  349,  350,  350,  351,  352,  353,  338,  361,  355,
+
+      356,  357,  358,  363,  360,  364,  365,  366,  368,  369,
+      370,  371,  372,  374,  375,  376,  377,  380,  381,  382,
+      383,  384,  387,  388,  390,  361,  391,  392,  393,  394,
+      363,  395,  364,  365,  366,  368,  369,  370,  371,  372,
+      374,  375,  376,  377,  380,  381,  382,  383,  384,  387,
+      388,  390,  396,  391,  392,  393,  394,  397,  395,  398,
+      400,  402,  404,  408,  410,  412,  413,  414,  415,  416,
+      417,  418,  419,  420,  422,  423,  424,  425,  426,  396,
+      427,  429,  430,  431,  397,  432,  398,  400,  402,  404,
+      408,  410,  412,  413,  414,  415,  416,  417,  418,  419,
+
+      420,  422,  423,  424,  425,  426,  433,  427,  429,  430,
+      431,  434,  432,  435,  436,  437,  438,  439,  442,  443,
+      444,  445,  446,  447,  450,  453,  454,  455,  456,  459,
+      455,  462,  463,  433,  464,  465,  466,  467,  434,  470,
+      435,  436,  437,  438,  439,  442,  443,  444,  445,  446,
+      447,  450,  453,  454,  455,  456,  459,  455,  462,  463,
+      471,  464,  465,  466,  467,  472,  470,  473,  474,  476,
+      477,  478,  480,  481,  482,  483,  485,  486,  487,  488,
+      489,  490,  491,  492,  493,  495,  496,  471,  497,  499,
+      500,  501,  472,  505,  473,  474,  476,  477,  478,  480,
+
+      481,  482,  483,  485,  486,  487,  488,  489,  490,  491,
+      492,  493,  495,  496,  507,  497,  499,  500,  501,  509,
+      505,  510,  511,  512,  514,  516,  517,  518,  519,  520,
+      522,  524,  526,  529,  531,  532,  533,  534,  541,  542,
+      543,  507,  546,  548,  550,  552,  509,  553,  510,  511,
+      512,  514,  516,  517,  518,  519,  520,  522,  524,  526,
+      529,  531,  532,  533,  534,  541,  542,  543,  554,  546,
+      548,  550,  552,  555,  553,  556,  557,  559,  560,  561,
+      562,  564,  566,  568,  569,  570,  571,  572,  577,  578,
+      584,  588,  589,  592,  593,  554,  594,  598,  601,  602,
+
+      555,  605,  556,  557,  559,  560,  561,  562,  564,  566,
+      568,  569,  570,  571,  572,  577,  578,  584,  588,  589,
+      592,  593,  606,  594,  598,  601,  602,  607,  605,  608,
+      611,  612,  613,  616,  618,  619,  620,  621,  622,  626,
+      627,  627,  629,  633,  634,  637,  638,  639,  640,  606,
+      644,    0,  645,  646,  607,  648,  608,  611,  612,  613,
+      616,  618,  619,  620,  621,  622,  626,  651,  652,  629,
+      633,  634,  637,  638,  639,  640,  655,  644,  627,  645,
+      646,  658,  648,  661,  664,  664,  665,  669,  671,  675,
+      677,  679,  681,  683,  651,  652,    0,    0,    0,    0,
+
+        0,    0,    0,  655,    0,  627,    0,    0,  658,    0,
+      661,    0,    0,  665,  669,  671,  675,  677,  679,  681,
+      683,    0,    0,    0,    0,    0,  664,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,  663,  689,  689,  689,  689,
-      689,  690,    0,    0,  690,  690,  692,  692,  692,    0,
-      692,  693,    0,  693,  693,  693,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688,  688,  688,  688,  688,  688,  688,  688,
-      688,  688,  688
+        0,    0,    0,  664,  690,  690,  690,  690,  690,  690,
+      691,    0,    0,  691,  691,  693,  693,  693,    0,  693,
+      694,    0,  694,  694,  694,  694,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689,  689,  689,  689,  689,  689,  689,
+      689,  689,  689,  689
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1243,7 +1245,7 @@ static const flex_int16_t yy_chk[1544] =
 
 static thread_local std::stringstream strbuf;
 
-#line 1247 "flex_lexer.cpp"
+#line 1249 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1256,7 +1258,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1260 "flex_lexer.cpp"
+#line 1262 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1542,7 +1544,7 @@ YY_DECL
 #line 55 "flex_lexer.l"
 
 
-#line 1546 "flex_lexer.cpp"
+#line 1548 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1569,13 +1571,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 689 )
+				if ( yy_current_state >= 690 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 688 );
+		while ( yy_current_state != 689 );
 		yy_cp = yyg->yy_last_accepting_cpos;
 		yy_current_state = yyg->yy_last_accepting_state;
 
@@ -2546,23 +2548,28 @@ YY_RULE_SETUP
 case 185:
 YY_RULE_SETUP
 #line 279 "flex_lexer.l"
+{ BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null character in string\n"); return SQL_INVALID; }
+	YY_BREAK
+case 186:
+YY_RULE_SETUP
+#line 280 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 280 "flex_lexer.l"
+#line 281 "flex_lexer.l"
 { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 	YY_BREAK
-case 186:
+case 187:
 YY_RULE_SETUP
-#line 282 "flex_lexer.l"
+#line 283 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 	YY_BREAK
-case 187:
+case 188:
 YY_RULE_SETUP
-#line 284 "flex_lexer.l"
+#line 285 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2566 "flex_lexer.cpp"
+#line 2573 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2853,7 +2860,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	for ( yy_cp = yyg->yytext_ptr + YY_MORE_ADJ; yy_cp < yyg->yy_c_buf_p; ++yy_cp )
 		{
-		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 1);
+		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 77);
 		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
@@ -2862,7 +2869,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 689 )
+			if ( yy_current_state >= 690 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -2882,7 +2889,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner; /* This var may be unused depending upon options. */
 	char *yy_cp = yyg->yy_c_buf_p;
 
-	YY_CHAR yy_c = 1;
+	YY_CHAR yy_c = 77;
 	if ( yy_accept[yy_current_state] )
 		{
 		yyg->yy_last_accepting_state = yy_current_state;
@@ -2891,11 +2898,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 689 )
+		if ( yy_current_state >= 690 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 688);
+	yy_is_jam = (yy_current_state == 689);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -3718,7 +3725,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 284 "flex_lexer.l"
+#line 285 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 60a17fa..b32451b 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -729,7 +729,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 284 "flex_lexer.l"
+#line 285 "flex_lexer.l"
 
 
 #line 736 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 77cc88e..49f844d 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -262,7 +262,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
   return SQL_INTVAL;
 }
 
-\"[^\"\n]+\" {
+\"[^\"\n\0]+\" {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
   return SQL_IDENTIFIER;
@@ -275,7 +275,8 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
 \'                          { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 <singlequotedstring>\'\'    { strbuf << '\''; }
-<singlequotedstring>[^']*   { strbuf << yytext; }
+<singlequotedstring>[^'\0]+ { strbuf << yytext; }
+<singlequotedstring>\0      { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null character in string\n"); return SQL_INVALID; }
 <singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 <singlequotedstring><<EOF>> { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 
-- 
2.43.0


From 82f44f2147d2ca67515c14d24b6ccf4cad159e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 05/14] fix: free everything a rejected query had been parsed
 to

Column constraints, references, WITH descriptions, locking clauses, update clauses, and CREATE TABLE FROM with an
unknown file type were leaked when the query turned out to be invalid later on, and array indexes always.
---
 src/parser/bison_parser.cpp | 1301 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |   12 +-
 src/sql/CreateStatement.cpp |   10 +
 src/sql/CreateStatement.h   |    1 +
 src/sql/SelectStatement.h   |    2 +
 src/sql/UpdateStatement.h   |    2 +
 src/sql/statements.cpp      |   22 +-
 7 files changed, 711 insertions(+), 639 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index f13d1d1..e06ef6a 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -880,37 +880,37 @@ static const yytype_int16 yyrline[] =
      405,   406,   408,   412,   417,   421,   431,   432,   433,   435,
      435,   441,   447,   449,   453,   465,   471,   488,   503,   505,
      506,   507,   509,   523,   527,   537,   541,   565,   573,   586,
-     593,   608,   628,   629,   634,   645,   658,   670,   677,   684,
-     693,   694,   696,   700,   705,   706,   708,   716,   717,   718,
-     719,   720,   721,   722,   726,   727,   728,   729,   730,   731,
-     732,   733,   734,   735,   736,   738,   739,   741,   742,   743,
-     745,   746,   748,   752,   756,   761,   769,   770,   771,   772,
-     774,   775,   776,   778,   786,   792,   798,   804,   810,   811,
-     818,   824,   826,   836,   843,   854,   861,   869,   870,   877,
-     884,   888,   893,   903,   907,   911,   923,   923,   925,   926,
-     935,   936,   938,   952,   964,   969,   973,   977,   982,   983,
-     985,   995,   996,   998,  1000,  1001,  1003,  1005,  1006,  1008,
-    1013,  1015,  1016,  1018,  1019,  1021,  1025,  1030,  1032,  1033,
-    1034,  1036,  1037,  1059,  1060,  1062,  1063,  1064,  1065,  1066,
-    1067,  1072,  1076,  1082,  1083,  1085,  1089,  1094,  1094,  1098,
-    1106,  1107,  1109,  1118,  1118,  1118,  1118,  1118,  1120,  1121,
-    1121,  1121,  1121,  1121,  1121,  1121,  1121,  1122,  1122,  1126,
-    1126,  1128,  1129,  1130,  1131,  1132,  1134,  1134,  1135,  1136,
-    1137,  1138,  1139,  1140,  1141,  1142,  1143,  1145,  1146,  1148,
-    1149,  1150,  1151,  1155,  1156,  1157,  1158,  1160,  1161,  1163,
-    1164,  1166,  1167,  1168,  1169,  1170,  1171,  1172,  1176,  1177,
-    1178,  1179,  1183,  1184,  1186,  1187,  1192,  1193,  1194,  1198,
-    1199,  1200,  1202,  1203,  1204,  1205,  1206,  1208,  1210,  1212,
-    1213,  1214,  1215,  1216,  1217,  1219,  1220,  1221,  1222,  1223,
-    1224,  1226,  1226,  1228,  1230,  1232,  1234,  1235,  1236,  1237,
-    1239,  1239,  1239,  1239,  1239,  1239,  1239,  1241,  1243,  1244,
-    1246,  1247,  1249,  1251,  1253,  1264,  1265,  1276,  1308,  1317,
-    1317,  1324,  1324,  1326,  1326,  1333,  1337,  1342,  1350,  1356,
-    1360,  1365,  1366,  1368,  1368,  1370,  1370,  1372,  1373,  1375,
-    1375,  1381,  1382,  1384,  1388,  1393,  1399,  1406,  1407,  1408,
-    1409,  1411,  1412,  1413,  1419,  1419,  1421,  1423,  1427,  1432,
-    1442,  1449,  1457,  1466,  1467,  1468,  1469,  1470,  1471,  1472,
-    1473,  1474,  1475,  1477,  1483,  1483,  1486,  1490
+     593,   608,   628,   629,   634,   645,   660,   672,   679,   686,
+     695,   696,   698,   702,   707,   708,   710,   721,   722,   723,
+     724,   725,   726,   727,   731,   732,   733,   734,   735,   736,
+     737,   738,   739,   740,   741,   743,   744,   746,   747,   748,
+     750,   751,   753,   757,   761,   766,   774,   775,   776,   777,
+     779,   780,   781,   783,   791,   797,   803,   809,   815,   816,
+     823,   829,   831,   841,   848,   859,   866,   874,   875,   882,
+     889,   893,   898,   908,   912,   916,   928,   928,   930,   931,
+     940,   941,   943,   957,   969,   974,   978,   982,   987,   988,
+     990,  1000,  1001,  1003,  1005,  1006,  1008,  1010,  1011,  1013,
+    1018,  1020,  1021,  1023,  1024,  1026,  1030,  1035,  1037,  1038,
+    1039,  1041,  1042,  1064,  1065,  1067,  1068,  1069,  1070,  1071,
+    1072,  1077,  1081,  1087,  1088,  1090,  1094,  1099,  1099,  1103,
+    1111,  1112,  1114,  1123,  1123,  1123,  1123,  1123,  1125,  1126,
+    1126,  1126,  1126,  1126,  1126,  1126,  1126,  1127,  1127,  1131,
+    1131,  1133,  1134,  1135,  1136,  1137,  1139,  1139,  1140,  1141,
+    1142,  1143,  1144,  1145,  1146,  1147,  1148,  1150,  1151,  1153,
+    1154,  1155,  1156,  1160,  1161,  1162,  1163,  1165,  1166,  1168,
+    1169,  1171,  1172,  1173,  1174,  1175,  1176,  1177,  1181,  1182,
+    1183,  1184,  1188,  1189,  1191,  1192,  1197,  1198,  1199,  1203,
+    1204,  1205,  1207,  1208,  1209,  1210,  1211,  1213,  1215,  1217,
+    1218,  1219,  1220,  1221,  1222,  1224,  1225,  1226,  1227,  1228,
+    1229,  1231,  1231,  1233,  1235,  1240,  1242,  1243,  1244,  1245,
+    1247,  1247,  1247,  1247,  1247,  1247,  1247,  1249,  1251,  1252,
+    1254,  1255,  1257,  1259,  1261,  1272,  1273,  1284,  1316,  1325,
+    1325,  1332,  1332,  1334,  1334,  1341,  1345,  1350,  1358,  1364,
+    1368,  1373,  1374,  1376,  1376,  1378,  1378,  1380,  1381,  1383,
+    1383,  1389,  1390,  1392,  1396,  1401,  1407,  1414,  1415,  1416,
+    1417,  1419,  1420,  1421,  1427,  1427,  1429,  1431,  1435,  1440,
+    1450,  1457,  1465,  1474,  1475,  1476,  1477,  1478,  1479,  1480,
+    1481,  1482,  1483,  1485,  1491,  1491,  1494,  1498
 };
 #endif
 
@@ -2933,75 +2933,110 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2939 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_clause_vec)) {
+    for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).locking_clause_vec));
+}
+#line 2946 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2945 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_clause_vec)) {
+    for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).locking_clause_vec));
+}
+#line 2959 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
 #line 207 "bison_parser.y"
             { delete (((*yyvaluep).locking_t)); }
-#line 2951 "bison_parser.cpp"
+#line 2965 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
 #line 181 "bison_parser.y"
             { }
-#line 2957 "bison_parser.cpp"
+#line 2971 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
 #line 181 "bison_parser.y"
             { }
-#line 2963 "bison_parser.cpp"
+#line 2977 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).with_description_vec)); }
-#line 2969 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 2990 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).with_description_vec)); }
-#line 2975 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 3003 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).with_description_vec)); }
-#line 2981 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 3016 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
 #line 207 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 2987 "bison_parser.cpp"
+#line 3022 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
 #line 207 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2993 "bison_parser.cpp"
+#line 3028 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
 #line 181 "bison_parser.y"
             { }
-#line 2999 "bison_parser.cpp"
+#line 3034 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
 #line 207 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3005 "bison_parser.cpp"
+#line 3040 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
@@ -3014,7 +3049,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3018 "bison_parser.cpp"
+#line 3053 "bison_parser.cpp"
         break;
 
       default:
@@ -3122,7 +3157,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 3126 "bison_parser.cpp"
+#line 3161 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -3351,7 +3386,7 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3355 "bison_parser.cpp"
+#line 3390 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
@@ -3362,7 +3397,7 @@ yyreduce:
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3366 "bison_parser.cpp"
+#line 3401 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
@@ -3373,7 +3408,7 @@ yyreduce:
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3377 "bison_parser.cpp"
+#line 3412 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
@@ -3382,7 +3417,7 @@ yyreduce:
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3386 "bison_parser.cpp"
+#line 3421 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
@@ -3391,97 +3426,97 @@ yyreduce:
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3395 "bison_parser.cpp"
+#line 3430 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
 #line 386 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3401 "bison_parser.cpp"
+#line 3436 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
 #line 387 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3407 "bison_parser.cpp"
+#line 3442 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
 #line 388 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3413 "bison_parser.cpp"
+#line 3448 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
 #line 390 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3419 "bison_parser.cpp"
+#line 3454 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
 #line 391 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3425 "bison_parser.cpp"
+#line 3460 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
 #line 392 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3431 "bison_parser.cpp"
+#line 3466 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
 #line 393 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3437 "bison_parser.cpp"
+#line 3472 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
 #line 394 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3443 "bison_parser.cpp"
+#line 3478 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
 #line 395 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3449 "bison_parser.cpp"
+#line 3484 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
 #line 396 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3455 "bison_parser.cpp"
+#line 3490 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
 #line 397 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3461 "bison_parser.cpp"
+#line 3496 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
 #line 398 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3467 "bison_parser.cpp"
+#line 3502 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
 #line 399 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3473 "bison_parser.cpp"
+#line 3508 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
 #line 405 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3479 "bison_parser.cpp"
+#line 3514 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
 #line 406 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 3485 "bison_parser.cpp"
+#line 3520 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
@@ -3490,7 +3525,7 @@ yyreduce:
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3494 "bison_parser.cpp"
+#line 3529 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
@@ -3499,7 +3534,7 @@ yyreduce:
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3503 "bison_parser.cpp"
+#line 3538 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
@@ -3508,7 +3543,7 @@ yyreduce:
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3512 "bison_parser.cpp"
+#line 3547 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
@@ -3518,25 +3553,25 @@ yyreduce:
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3522 "bison_parser.cpp"
+#line 3557 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
 #line 431 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3528 "bison_parser.cpp"
+#line 3563 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
 #line 432 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3534 "bison_parser.cpp"
+#line 3569 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
 #line 433 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3540 "bison_parser.cpp"
+#line 3575 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
@@ -3546,7 +3581,7 @@ yyreduce:
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3550 "bison_parser.cpp"
+#line 3585 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
@@ -3555,7 +3590,7 @@ yyreduce:
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3559 "bison_parser.cpp"
+#line 3594 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
@@ -3565,7 +3600,7 @@ yyreduce:
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3569 "bison_parser.cpp"
+#line 3604 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
@@ -3576,7 +3611,7 @@ yyreduce:
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3580 "bison_parser.cpp"
+#line 3615 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
@@ -3597,7 +3632,7 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3601 "bison_parser.cpp"
+#line 3636 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
@@ -3616,31 +3651,31 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3620 "bison_parser.cpp"
+#line 3655 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
 #line 503 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3626 "bison_parser.cpp"
+#line 3661 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
 #line 505 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3632 "bison_parser.cpp"
+#line 3667 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
 #line 506 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3638 "bison_parser.cpp"
+#line 3673 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
 #line 507 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3644 "bison_parser.cpp"
+#line 3679 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
@@ -3659,7 +3694,7 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3663 "bison_parser.cpp"
+#line 3698 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
@@ -3668,7 +3703,7 @@ yyreduce:
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3672 "bison_parser.cpp"
+#line 3707 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
@@ -3683,7 +3718,7 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3687 "bison_parser.cpp"
+#line 3722 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
@@ -3692,7 +3727,7 @@ yyreduce:
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3696 "bison_parser.cpp"
+#line 3731 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
@@ -3721,7 +3756,7 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3725 "bison_parser.cpp"
+#line 3760 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
@@ -3733,7 +3768,7 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3737 "bison_parser.cpp"
+#line 3772 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
@@ -3751,13 +3786,13 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3755 "bison_parser.cpp"
+#line 3790 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
 #line 586 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3761 "bison_parser.cpp"
+#line 3796 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
@@ -3777,7 +3812,7 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3781 "bison_parser.cpp"
+#line 3816 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
@@ -3796,13 +3831,13 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3800 "bison_parser.cpp"
+#line 3835 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
 #line 628 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3806 "bison_parser.cpp"
+#line 3841 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
@@ -3812,7 +3847,7 @@ yyreduce:
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3816 "bison_parser.cpp"
+#line 3851 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
@@ -3822,7 +3857,7 @@ yyreduce:
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3826 "bison_parser.cpp"
+#line 3861 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
@@ -3834,17 +3869,19 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
   if (strcasecmp((yyvsp[-2].sval), "tbl") != 0) {
     free((yyvsp[-2].sval));
+    free((yyvsp[0].sval));
+    delete (yyval.create_stmt);
     yyerror(&yyloc, result, scanner, "File type is unknown.");
     YYERROR;
   }
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3844 "bison_parser.cpp"
+#line 3881 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 658 "bison_parser.y"
+#line 660 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3857,11 +3894,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3861 "bison_parser.cpp"
+#line 3898 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 670 "bison_parser.y"
+#line 672 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -3869,11 +3906,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3873 "bison_parser.cpp"
+#line 3910 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 677 "bison_parser.y"
+#line 679 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -3881,11 +3918,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3885 "bison_parser.cpp"
+#line 3922 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 684 "bison_parser.y"
+#line 686 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3894,246 +3931,249 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3898 "bison_parser.cpp"
+#line 3935 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 693 "bison_parser.y"
+#line 695 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3904 "bison_parser.cpp"
+#line 3941 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 694 "bison_parser.y"
+#line 696 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3910 "bison_parser.cpp"
+#line 3947 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 696 "bison_parser.y"
+#line 698 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3919 "bison_parser.cpp"
+#line 3956 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 700 "bison_parser.y"
+#line 702 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3928 "bison_parser.cpp"
+#line 3965 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 705 "bison_parser.y"
+#line 707 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3934 "bison_parser.cpp"
+#line 3971 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 706 "bison_parser.y"
+#line 708 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3940 "bison_parser.cpp"
+#line 3977 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 708 "bison_parser.y"
+#line 710 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
     yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{(yyvsp[-2].sval)}).c_str());
   }
+  // The column definition owns the constraints and references.
+  (yyvsp[0].column_constraints_t)->constraints = nullptr;
+  (yyvsp[0].column_constraints_t)->references = nullptr;
   delete (yyvsp[0].column_constraints_t);
 }
-#line 3952 "bison_parser.cpp"
+#line 3992 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 716 "bison_parser.y"
+#line 721 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3958 "bison_parser.cpp"
+#line 3998 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 717 "bison_parser.y"
+#line 722 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 3964 "bison_parser.cpp"
+#line 4004 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 718 "bison_parser.y"
+#line 723 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 3970 "bison_parser.cpp"
+#line 4010 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 719 "bison_parser.y"
+#line 724 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3976 "bison_parser.cpp"
+#line 4016 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 720 "bison_parser.y"
+#line 725 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 3982 "bison_parser.cpp"
+#line 4022 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 721 "bison_parser.y"
+#line 726 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3988 "bison_parser.cpp"
+#line 4028 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 722 "bison_parser.y"
+#line 727 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 3997 "bison_parser.cpp"
+#line 4037 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 726 "bison_parser.y"
+#line 731 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4003 "bison_parser.cpp"
+#line 4043 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 727 "bison_parser.y"
+#line 732 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4009 "bison_parser.cpp"
+#line 4049 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 728 "bison_parser.y"
+#line 733 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4015 "bison_parser.cpp"
+#line 4055 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 729 "bison_parser.y"
+#line 734 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4021 "bison_parser.cpp"
+#line 4061 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 730 "bison_parser.y"
+#line 735 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4027 "bison_parser.cpp"
+#line 4067 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 731 "bison_parser.y"
+#line 736 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4033 "bison_parser.cpp"
+#line 4073 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 732 "bison_parser.y"
+#line 737 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4039 "bison_parser.cpp"
+#line 4079 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 733 "bison_parser.y"
+#line 738 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4045 "bison_parser.cpp"
+#line 4085 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 734 "bison_parser.y"
+#line 739 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4051 "bison_parser.cpp"
+#line 4091 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 735 "bison_parser.y"
+#line 740 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4057 "bison_parser.cpp"
+#line 4097 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 736 "bison_parser.y"
+#line 741 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4063 "bison_parser.cpp"
+#line 4103 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 738 "bison_parser.y"
+#line 743 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4069 "bison_parser.cpp"
+#line 4109 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 739 "bison_parser.y"
+#line 744 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4075 "bison_parser.cpp"
+#line 4115 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 741 "bison_parser.y"
+#line 746 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4081 "bison_parser.cpp"
+#line 4121 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 742 "bison_parser.y"
+#line 747 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4087 "bison_parser.cpp"
+#line 4127 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 743 "bison_parser.y"
+#line 748 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4093 "bison_parser.cpp"
+#line 4133 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 745 "bison_parser.y"
+#line 750 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4099 "bison_parser.cpp"
+#line 4139 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 746 "bison_parser.y"
+#line 751 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4105 "bison_parser.cpp"
+#line 4145 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 748 "bison_parser.y"
+#line 753 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4114 "bison_parser.cpp"
+#line 4154 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 752 "bison_parser.y"
+#line 757 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4123 "bison_parser.cpp"
+#line 4163 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 756 "bison_parser.y"
+#line 761 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4133 "bison_parser.cpp"
+#line 4173 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 761 "bison_parser.y"
+#line 766 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4141,159 +4181,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4145 "bison_parser.cpp"
+#line 4185 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 769 "bison_parser.y"
+#line 774 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4151 "bison_parser.cpp"
+#line 4191 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 770 "bison_parser.y"
+#line 775 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4157 "bison_parser.cpp"
+#line 4197 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 771 "bison_parser.y"
+#line 776 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4163 "bison_parser.cpp"
+#line 4203 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 772 "bison_parser.y"
+#line 777 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4169 "bison_parser.cpp"
+#line 4209 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 774 "bison_parser.y"
+#line 779 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4175 "bison_parser.cpp"
+#line 4215 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 775 "bison_parser.y"
+#line 780 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4181 "bison_parser.cpp"
+#line 4221 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 776 "bison_parser.y"
+#line 781 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4187 "bison_parser.cpp"
+#line 4227 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 778 "bison_parser.y"
+#line 783 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4193 "bison_parser.cpp"
+#line 4233 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 786 "bison_parser.y"
+#line 791 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4204 "bison_parser.cpp"
+#line 4244 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 792 "bison_parser.y"
+#line 797 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4215 "bison_parser.cpp"
+#line 4255 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 798 "bison_parser.y"
+#line 803 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4225 "bison_parser.cpp"
+#line 4265 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 804 "bison_parser.y"
+#line 809 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4235 "bison_parser.cpp"
+#line 4275 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 810 "bison_parser.y"
+#line 815 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4241 "bison_parser.cpp"
+#line 4281 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 811 "bison_parser.y"
+#line 816 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4247 "bison_parser.cpp"
+#line 4287 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 818 "bison_parser.y"
+#line 823 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4257 "bison_parser.cpp"
+#line 4297 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 824 "bison_parser.y"
+#line 829 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4263 "bison_parser.cpp"
+#line 4303 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 826 "bison_parser.y"
+#line 831 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4272 "bison_parser.cpp"
+#line 4312 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 836 "bison_parser.y"
+#line 841 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4283 "bison_parser.cpp"
+#line 4323 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 843 "bison_parser.y"
+#line 848 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4293 "bison_parser.cpp"
+#line 4333 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 854 "bison_parser.y"
+#line 859 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4301,11 +4341,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4305 "bison_parser.cpp"
+#line 4345 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 861 "bison_parser.y"
+#line 866 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4313,80 +4353,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4317 "bison_parser.cpp"
+#line 4357 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 869 "bison_parser.y"
+#line 874 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4323 "bison_parser.cpp"
+#line 4363 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 870 "bison_parser.y"
+#line 875 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4329 "bison_parser.cpp"
+#line 4369 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 877 "bison_parser.y"
+#line 882 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4340 "bison_parser.cpp"
+#line 4380 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 884 "bison_parser.y"
+#line 889 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4349 "bison_parser.cpp"
+#line 4389 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 888 "bison_parser.y"
+#line 893 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4358 "bison_parser.cpp"
+#line 4398 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 893 "bison_parser.y"
+#line 898 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4368 "bison_parser.cpp"
+#line 4408 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 903 "bison_parser.y"
+#line 908 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4377 "bison_parser.cpp"
+#line 4417 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 907 "bison_parser.y"
+#line 912 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4386 "bison_parser.cpp"
+#line 4426 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 911 "bison_parser.y"
+#line 916 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4398,17 +4438,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4402 "bison_parser.cpp"
+#line 4442 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 925 "bison_parser.y"
+#line 930 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4408 "bison_parser.cpp"
+#line 4448 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 926 "bison_parser.y"
+#line 931 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4417,23 +4457,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4421 "bison_parser.cpp"
+#line 4461 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 935 "bison_parser.y"
+#line 940 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4427 "bison_parser.cpp"
+#line 4467 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 936 "bison_parser.y"
+#line 941 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4433 "bison_parser.cpp"
+#line 4473 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 938 "bison_parser.y"
+#line 943 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4448,11 +4488,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4452 "bison_parser.cpp"
+#line 4492 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 952 "bison_parser.y"
+#line 957 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4464,59 +4504,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4468 "bison_parser.cpp"
+#line 4508 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 964 "bison_parser.y"
+#line 969 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4477 "bison_parser.cpp"
+#line 4517 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 969 "bison_parser.y"
+#line 974 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4486 "bison_parser.cpp"
+#line 4526 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 973 "bison_parser.y"
+#line 978 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4495 "bison_parser.cpp"
+#line 4535 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 977 "bison_parser.y"
+#line 982 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4504 "bison_parser.cpp"
+#line 4544 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 982 "bison_parser.y"
+#line 987 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4510 "bison_parser.cpp"
+#line 4550 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 983 "bison_parser.y"
+#line 988 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4516 "bison_parser.cpp"
+#line 4556 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 985 "bison_parser.y"
+#line 990 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4526,141 +4566,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4530 "bison_parser.cpp"
+#line 4570 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 995 "bison_parser.y"
+#line 1000 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4536 "bison_parser.cpp"
+#line 4576 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 996 "bison_parser.y"
+#line 1001 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4542 "bison_parser.cpp"
+#line 4582 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1000 "bison_parser.y"
+#line 1005 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4548 "bison_parser.cpp"
+#line 4588 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1001 "bison_parser.y"
+#line 1006 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4554 "bison_parser.cpp"
+#line 4594 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1003 "bison_parser.y"
+#line 1008 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4560 "bison_parser.cpp"
+#line 4600 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1005 "bison_parser.y"
+#line 1010 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4566 "bison_parser.cpp"
+#line 4606 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1006 "bison_parser.y"
+#line 1011 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4572 "bison_parser.cpp"
+#line 4612 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1008 "bison_parser.y"
+#line 1013 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4582 "bison_parser.cpp"
+#line 4622 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1013 "bison_parser.y"
+#line 1018 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4588 "bison_parser.cpp"
+#line 4628 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1015 "bison_parser.y"
+#line 1020 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4594 "bison_parser.cpp"
+#line 4634 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1016 "bison_parser.y"
+#line 1021 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4600 "bison_parser.cpp"
+#line 4640 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1018 "bison_parser.y"
+#line 1023 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4606 "bison_parser.cpp"
+#line 4646 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1019 "bison_parser.y"
+#line 1024 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4612 "bison_parser.cpp"
+#line 4652 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1021 "bison_parser.y"
+#line 1026 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4621 "bison_parser.cpp"
+#line 4661 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1025 "bison_parser.y"
+#line 1030 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4630 "bison_parser.cpp"
+#line 4670 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1030 "bison_parser.y"
+#line 1035 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4636 "bison_parser.cpp"
+#line 4676 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1032 "bison_parser.y"
+#line 1037 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4642 "bison_parser.cpp"
+#line 4682 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1033 "bison_parser.y"
+#line 1038 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4648 "bison_parser.cpp"
+#line 4688 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1034 "bison_parser.y"
+#line 1039 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4654 "bison_parser.cpp"
+#line 4694 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1036 "bison_parser.y"
+#line 1041 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4660 "bison_parser.cpp"
+#line 4700 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1037 "bison_parser.y"
+#line 1042 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4680,115 +4720,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4684 "bison_parser.cpp"
+#line 4724 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1059 "bison_parser.y"
+#line 1064 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4690 "bison_parser.cpp"
+#line 4730 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1060 "bison_parser.y"
+#line 1065 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4696 "bison_parser.cpp"
+#line 4736 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1062 "bison_parser.y"
+#line 1067 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4702 "bison_parser.cpp"
+#line 4742 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1063 "bison_parser.y"
+#line 1068 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4708 "bison_parser.cpp"
+#line 4748 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1064 "bison_parser.y"
+#line 1069 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4714 "bison_parser.cpp"
+#line 4754 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1065 "bison_parser.y"
+#line 1070 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4720 "bison_parser.cpp"
+#line 4760 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1066 "bison_parser.y"
+#line 1071 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4726 "bison_parser.cpp"
+#line 4766 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1067 "bison_parser.y"
+#line 1072 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4732 "bison_parser.cpp"
+#line 4772 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1072 "bison_parser.y"
+#line 1077 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4741 "bison_parser.cpp"
+#line 4781 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1076 "bison_parser.y"
+#line 1081 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4750 "bison_parser.cpp"
+#line 4790 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1082 "bison_parser.y"
+#line 1087 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4756 "bison_parser.cpp"
+#line 4796 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1083 "bison_parser.y"
+#line 1088 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4762 "bison_parser.cpp"
+#line 4802 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1085 "bison_parser.y"
+#line 1090 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4771 "bison_parser.cpp"
+#line 4811 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1089 "bison_parser.y"
+#line 1094 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4780 "bison_parser.cpp"
+#line 4820 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1094 "bison_parser.y"
+#line 1099 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4788 "bison_parser.cpp"
+#line 4828 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1098 "bison_parser.y"
+#line 1103 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4797,23 +4837,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4801 "bison_parser.cpp"
+#line 4841 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1106 "bison_parser.y"
+#line 1111 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4807 "bison_parser.cpp"
+#line 4847 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1107 "bison_parser.y"
+#line 1112 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4813 "bison_parser.cpp"
+#line 4853 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1109 "bison_parser.y"
+#line 1114 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4822,519 +4862,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4826 "bison_parser.cpp"
+#line 4866 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1120 "bison_parser.y"
+#line 1125 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4832 "bison_parser.cpp"
+#line 4872 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1122 "bison_parser.y"
+#line 1127 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4840 "bison_parser.cpp"
+#line 4880 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1128 "bison_parser.y"
+#line 1133 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4846 "bison_parser.cpp"
+#line 4886 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1129 "bison_parser.y"
+#line 1134 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4852 "bison_parser.cpp"
+#line 4892 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1130 "bison_parser.y"
+#line 1135 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4858 "bison_parser.cpp"
+#line 4898 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1131 "bison_parser.y"
+#line 1136 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4864 "bison_parser.cpp"
+#line 4904 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1132 "bison_parser.y"
+#line 1137 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4870 "bison_parser.cpp"
+#line 4910 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1134 "bison_parser.y"
+#line 1139 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4876 "bison_parser.cpp"
+#line 4916 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1135 "bison_parser.y"
+#line 1140 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4882 "bison_parser.cpp"
+#line 4922 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1136 "bison_parser.y"
+#line 1141 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4888 "bison_parser.cpp"
+#line 4928 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1137 "bison_parser.y"
+#line 1142 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4894 "bison_parser.cpp"
+#line 4934 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1138 "bison_parser.y"
+#line 1143 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4900 "bison_parser.cpp"
+#line 4940 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1139 "bison_parser.y"
+#line 1144 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4906 "bison_parser.cpp"
+#line 4946 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1140 "bison_parser.y"
+#line 1145 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4912 "bison_parser.cpp"
+#line 4952 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1141 "bison_parser.y"
+#line 1146 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4918 "bison_parser.cpp"
+#line 4958 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1142 "bison_parser.y"
+#line 1147 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4924 "bison_parser.cpp"
+#line 4964 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1143 "bison_parser.y"
+#line 1148 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4930 "bison_parser.cpp"
+#line 4970 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1145 "bison_parser.y"
+#line 1150 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4936 "bison_parser.cpp"
+#line 4976 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1146 "bison_parser.y"
+#line 1151 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4942 "bison_parser.cpp"
+#line 4982 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1148 "bison_parser.y"
+#line 1153 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4948 "bison_parser.cpp"
+#line 4988 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1149 "bison_parser.y"
+#line 1154 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4954 "bison_parser.cpp"
+#line 4994 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1150 "bison_parser.y"
+#line 1155 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 4960 "bison_parser.cpp"
+#line 5000 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1151 "bison_parser.y"
+#line 1156 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 4966 "bison_parser.cpp"
+#line 5006 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1155 "bison_parser.y"
+#line 1160 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 4972 "bison_parser.cpp"
+#line 5012 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1156 "bison_parser.y"
+#line 1161 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4978 "bison_parser.cpp"
+#line 5018 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1157 "bison_parser.y"
+#line 1162 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 4984 "bison_parser.cpp"
+#line 5024 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1158 "bison_parser.y"
+#line 1163 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4990 "bison_parser.cpp"
+#line 5030 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1160 "bison_parser.y"
+#line 1165 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4996 "bison_parser.cpp"
+#line 5036 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1161 "bison_parser.y"
+#line 1166 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5002 "bison_parser.cpp"
+#line 5042 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1163 "bison_parser.y"
+#line 1168 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5008 "bison_parser.cpp"
+#line 5048 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1164 "bison_parser.y"
+#line 1169 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5014 "bison_parser.cpp"
+#line 5054 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1166 "bison_parser.y"
+#line 1171 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5020 "bison_parser.cpp"
+#line 5060 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1167 "bison_parser.y"
+#line 1172 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5026 "bison_parser.cpp"
+#line 5066 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1168 "bison_parser.y"
+#line 1173 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5032 "bison_parser.cpp"
+#line 5072 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1169 "bison_parser.y"
+#line 1174 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5038 "bison_parser.cpp"
+#line 5078 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1170 "bison_parser.y"
+#line 1175 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5044 "bison_parser.cpp"
+#line 5084 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1171 "bison_parser.y"
+#line 1176 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5050 "bison_parser.cpp"
+#line 5090 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1172 "bison_parser.y"
+#line 1177 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5056 "bison_parser.cpp"
+#line 5096 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1176 "bison_parser.y"
+#line 1181 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5062 "bison_parser.cpp"
+#line 5102 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1177 "bison_parser.y"
+#line 1182 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5068 "bison_parser.cpp"
+#line 5108 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1178 "bison_parser.y"
+#line 1183 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5074 "bison_parser.cpp"
+#line 5114 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1179 "bison_parser.y"
+#line 1184 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5080 "bison_parser.cpp"
+#line 5120 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1183 "bison_parser.y"
+#line 1188 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5086 "bison_parser.cpp"
+#line 5126 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1184 "bison_parser.y"
+#line 1189 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5092 "bison_parser.cpp"
+#line 5132 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1186 "bison_parser.y"
+#line 1191 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5098 "bison_parser.cpp"
+#line 5138 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1187 "bison_parser.y"
+#line 1192 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5104 "bison_parser.cpp"
+#line 5144 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1192 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5110 "bison_parser.cpp"
+#line 5150 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1193 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5116 "bison_parser.cpp"
+#line 5156 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1194 "bison_parser.y"
+#line 1199 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5124 "bison_parser.cpp"
+#line 5164 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1198 "bison_parser.y"
+#line 1203 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5130 "bison_parser.cpp"
+#line 5170 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1199 "bison_parser.y"
+#line 1204 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5136 "bison_parser.cpp"
+#line 5176 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1200 "bison_parser.y"
+#line 1205 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5142 "bison_parser.cpp"
+#line 5182 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1202 "bison_parser.y"
+#line 1207 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5148 "bison_parser.cpp"
+#line 5188 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1203 "bison_parser.y"
+#line 1208 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5154 "bison_parser.cpp"
+#line 5194 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1204 "bison_parser.y"
+#line 1209 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5160 "bison_parser.cpp"
+#line 5200 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1205 "bison_parser.y"
+#line 1210 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5166 "bison_parser.cpp"
+#line 5206 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1206 "bison_parser.y"
+#line 1211 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5172 "bison_parser.cpp"
+#line 5212 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1208 "bison_parser.y"
+#line 1213 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5178 "bison_parser.cpp"
+#line 5218 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1210 "bison_parser.y"
+#line 1215 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5184 "bison_parser.cpp"
+#line 5224 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1212 "bison_parser.y"
+#line 1217 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5190 "bison_parser.cpp"
+#line 5230 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1213 "bison_parser.y"
+#line 1218 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5196 "bison_parser.cpp"
+#line 5236 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1214 "bison_parser.y"
+#line 1219 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5202 "bison_parser.cpp"
+#line 5242 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1215 "bison_parser.y"
+#line 1220 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5208 "bison_parser.cpp"
+#line 5248 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1216 "bison_parser.y"
+#line 1221 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5214 "bison_parser.cpp"
+#line 5254 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1217 "bison_parser.y"
+#line 1222 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5220 "bison_parser.cpp"
+#line 5260 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1219 "bison_parser.y"
+#line 1224 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5226 "bison_parser.cpp"
+#line 5266 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1220 "bison_parser.y"
+#line 1225 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5232 "bison_parser.cpp"
+#line 5272 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1221 "bison_parser.y"
+#line 1226 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5238 "bison_parser.cpp"
+#line 5278 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1222 "bison_parser.y"
+#line 1227 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5244 "bison_parser.cpp"
+#line 5284 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1223 "bison_parser.y"
+#line 1228 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5250 "bison_parser.cpp"
+#line 5290 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1224 "bison_parser.y"
+#line 1229 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5256 "bison_parser.cpp"
+#line 5296 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1228 "bison_parser.y"
+#line 1233 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5262 "bison_parser.cpp"
+#line 5302 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1230 "bison_parser.y"
-                                          { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
-#line 5268 "bison_parser.cpp"
+#line 1235 "bison_parser.y"
+                                          {
+  (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
+  delete (yyvsp[-1].expr);
+}
+#line 5311 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1232 "bison_parser.y"
+#line 1240 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5274 "bison_parser.cpp"
+#line 5317 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1234 "bison_parser.y"
+#line 1242 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5280 "bison_parser.cpp"
+#line 5323 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1235 "bison_parser.y"
+#line 1243 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5286 "bison_parser.cpp"
+#line 5329 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1236 "bison_parser.y"
+#line 1244 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5292 "bison_parser.cpp"
+#line 5335 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1237 "bison_parser.y"
+#line 1245 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5298 "bison_parser.cpp"
+#line 5341 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1241 "bison_parser.y"
+#line 1249 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5304 "bison_parser.cpp"
+#line 5347 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1243 "bison_parser.y"
+#line 1251 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5310 "bison_parser.cpp"
+#line 5353 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1244 "bison_parser.y"
+#line 1252 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5316 "bison_parser.cpp"
+#line 5359 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1246 "bison_parser.y"
+#line 1254 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5322 "bison_parser.cpp"
+#line 5365 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1249 "bison_parser.y"
+#line 1257 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5328 "bison_parser.cpp"
+#line 5371 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1251 "bison_parser.y"
+#line 1259 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5334 "bison_parser.cpp"
+#line 5377 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1253 "bison_parser.y"
+#line 1261 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5345,17 +5388,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5349 "bison_parser.cpp"
+#line 5392 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1264 "bison_parser.y"
+#line 1272 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5355 "bison_parser.cpp"
+#line 5398 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1265 "bison_parser.y"
+#line 1273 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5367,11 +5410,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5371 "bison_parser.cpp"
+#line 5414 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1276 "bison_parser.y"
+#line 1284 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5403,61 +5446,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5407 "bison_parser.cpp"
+#line 5450 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1308 "bison_parser.y"
+#line 1316 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5417 "bison_parser.cpp"
+#line 5460 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1317 "bison_parser.y"
+#line 1325 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5428 "bison_parser.cpp"
+#line 5471 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1326 "bison_parser.y"
+#line 1334 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5439 "bison_parser.cpp"
+#line 5482 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1333 "bison_parser.y"
+#line 1341 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5448 "bison_parser.cpp"
+#line 5491 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1337 "bison_parser.y"
+#line 1345 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5457 "bison_parser.cpp"
+#line 5500 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1342 "bison_parser.y"
+#line 1350 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5465,215 +5508,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5469 "bison_parser.cpp"
+#line 5512 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1350 "bison_parser.y"
+#line 1358 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5479 "bison_parser.cpp"
+#line 5522 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1356 "bison_parser.y"
+#line 1364 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5488 "bison_parser.cpp"
+#line 5531 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1360 "bison_parser.y"
+#line 1368 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5497 "bison_parser.cpp"
+#line 5540 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1365 "bison_parser.y"
+#line 1373 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5503 "bison_parser.cpp"
+#line 5546 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1366 "bison_parser.y"
+#line 1374 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5509 "bison_parser.cpp"
+#line 5552 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1368 "bison_parser.y"
+#line 1376 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5515 "bison_parser.cpp"
+#line 5558 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1370 "bison_parser.y"
+#line 1378 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5521 "bison_parser.cpp"
+#line 5564 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1372 "bison_parser.y"
+#line 1380 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5527 "bison_parser.cpp"
+#line 5570 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1373 "bison_parser.y"
+#line 1381 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5533 "bison_parser.cpp"
+#line 5576 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1375 "bison_parser.y"
+#line 1383 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5539 "bison_parser.cpp"
+#line 5582 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1381 "bison_parser.y"
+#line 1389 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5545 "bison_parser.cpp"
+#line 5588 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1382 "bison_parser.y"
+#line 1390 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5551 "bison_parser.cpp"
+#line 5594 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1384 "bison_parser.y"
+#line 1392 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5560 "bison_parser.cpp"
+#line 5603 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1388 "bison_parser.y"
+#line 1396 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5569 "bison_parser.cpp"
+#line 5612 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1393 "bison_parser.y"
+#line 1401 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5580 "bison_parser.cpp"
+#line 5623 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1399 "bison_parser.y"
+#line 1407 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5591 "bison_parser.cpp"
+#line 5634 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1406 "bison_parser.y"
+#line 1414 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5597 "bison_parser.cpp"
+#line 5640 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1407 "bison_parser.y"
+#line 1415 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5603 "bison_parser.cpp"
+#line 5646 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1408 "bison_parser.y"
+#line 1416 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5609 "bison_parser.cpp"
+#line 5652 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1409 "bison_parser.y"
+#line 1417 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5615 "bison_parser.cpp"
+#line 5658 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1411 "bison_parser.y"
+#line 1419 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5621 "bison_parser.cpp"
+#line 5664 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1412 "bison_parser.y"
+#line 1420 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5627 "bison_parser.cpp"
+#line 5670 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1413 "bison_parser.y"
+#line 1421 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5633 "bison_parser.cpp"
+#line 5676 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1419 "bison_parser.y"
+#line 1427 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5639 "bison_parser.cpp"
+#line 5682 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1421 "bison_parser.y"
+#line 1429 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5645 "bison_parser.cpp"
+#line 5688 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1423 "bison_parser.y"
+#line 1431 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5654 "bison_parser.cpp"
+#line 5697 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1427 "bison_parser.y"
+#line 1435 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5663 "bison_parser.cpp"
+#line 5706 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1432 "bison_parser.y"
+#line 1440 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5673 "bison_parser.cpp"
+#line 5716 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1442 "bison_parser.y"
+#line 1450 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5681,11 +5724,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5685 "bison_parser.cpp"
+#line 5728 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1449 "bison_parser.y"
+#line 1457 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5694,11 +5737,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5698 "bison_parser.cpp"
+#line 5741 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1457 "bison_parser.y"
+#line 1465 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5707,89 +5750,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5711 "bison_parser.cpp"
+#line 5754 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1466 "bison_parser.y"
+#line 1474 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5717 "bison_parser.cpp"
+#line 5760 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1467 "bison_parser.y"
+#line 1475 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5723 "bison_parser.cpp"
+#line 5766 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1468 "bison_parser.y"
+#line 1476 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5729 "bison_parser.cpp"
+#line 5772 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1469 "bison_parser.y"
+#line 1477 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5735 "bison_parser.cpp"
+#line 5778 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1470 "bison_parser.y"
+#line 1478 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5741 "bison_parser.cpp"
+#line 5784 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1471 "bison_parser.y"
+#line 1479 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5747 "bison_parser.cpp"
+#line 5790 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1472 "bison_parser.y"
+#line 1480 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5753 "bison_parser.cpp"
+#line 5796 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1473 "bison_parser.y"
+#line 1481 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5759 "bison_parser.cpp"
+#line 5802 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1474 "bison_parser.y"
+#line 1482 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5765 "bison_parser.cpp"
+#line 5808 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1475 "bison_parser.y"
+#line 1483 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5771 "bison_parser.cpp"
+#line 5814 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1486 "bison_parser.y"
+#line 1494 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5780 "bison_parser.cpp"
+#line 5823 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1490 "bison_parser.y"
+#line 1498 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5789 "bison_parser.cpp"
+#line 5832 "bison_parser.cpp"
     break;
 
 
-#line 5793 "bison_parser.cpp"
+#line 5836 "bison_parser.cpp"
 
       default: break;
     }
@@ -6018,7 +6061,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1496 "bison_parser.y"
+#line 1504 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index fc5ba36..d0affb4 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -199,7 +199,7 @@
     }
   }
   delete ($$);
-} <table_vec> <table_element_vec> <update_vec> <expr_vec> <order_vec> <stmt_vec>
+} <table_vec> <table_element_vec> <update_vec> <expr_vec> <order_vec> <stmt_vec> <with_description_vec> <locking_clause_vec>
 %destructor {
   free($$->second);
   delete ($$);
@@ -649,6 +649,8 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$->tableName = $4.name;
   if (strcasecmp($6, "tbl") != 0) {
     free($6);
+    free($8);
+    delete $$;
     yyerror(&yyloc, result, scanner, "File type is unknown.");
     YYERROR;
   }
@@ -710,6 +712,9 @@ column_def : IDENTIFIER column_type opt_column_constraints {
   if (!$$->trySetNullableExplicit()) {
     yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{$1}).c_str());
   }
+  // The column definition owns the constraints and references.
+  $3->constraints = nullptr;
+  $3->references = nullptr;
   delete $3;
 };
 
@@ -1227,7 +1232,10 @@ duration_field : datetime_field | datetime_field_plural;
 
 array_expr : ARRAY '[' expr_list ']' { $$ = Expr::makeArray($3); };
 
-array_index : operand '[' int_literal ']' { $$ = Expr::makeArrayIndex($1, $3->ival); };
+array_index : operand '[' int_literal ']' {
+  $$ = Expr::makeArrayIndex($1, $3->ival);
+  delete $3;
+};
 
 between_expr : operand BETWEEN operand AND operand { $$ = Expr::makeBetween($1, $3, $5); };
 
diff --git a/src/sql/CreateStatement.cpp b/src/sql/CreateStatement.cpp
index c634083..153c864 100644
--- a/src/sql/CreateStatement.cpp
+++ b/src/sql/CreateStatement.cpp
@@ -58,6 +58,16 @@ ForeignKeyConstraint::~ForeignKeyConstraint() { delete references; }
 ColumnConstraints::ColumnConstraints()
     : constraints{new std::unordered_set<ConstraintType>()}, references{new std::vector<ReferencesSpecification*>} {}
 
+ColumnConstraints::~ColumnConstraints() {
+  delete constraints;
+  if (references) {
+    for (auto* ref : *references) {
+      delete ref;
+    }
+  }
+  delete references;
+}
+
 // ColumnDefinition
 ColumnDefinition::ColumnDefinition(char* name, ColumnType type, std::unordered_set<ConstraintType>* column_constraints,
                                    std::vector<ReferencesSpecification*>* references)
diff --git a/src/sql/CreateStatement.h b/src/sql/CreateStatement.h
index aaad0c2..2e78643 100644
--- a/src/sql/CreateStatement.h
+++ b/src/sql/CreateStatement.h
@@ -65,6 +65,7 @@ struct ColumnDefinition : TableElement {
 
 struct ColumnConstraints {
   explicit ColumnConstraints();
+  ~ColumnConstraints();
 
   std::unordered_set<ConstraintType>* constraints;
   std::vector<ReferencesSpecification*>* references;
diff --git a/src/sql/SelectStatement.h b/src/sql/SelectStatement.h
index a19e699..a8db9c1 100644
--- a/src/sql/SelectStatement.h
+++ b/src/sql/SelectStatement.h
@@ -62,6 +62,8 @@ struct SetOperation {
 };
 
 struct LockingClause {
+  ~LockingClause();
+
   RowLockMode rowLockMode;
   RowLockWaitPolicy rowLockWaitPolicy;
   std::vector<char*>* tables;
diff --git a/src/sql/UpdateStatement.h b/src/sql/UpdateStatement.h
index 6ea9d14..18bca27 100644
--- a/src/sql/UpdateStatement.h
+++ b/src/sql/UpdateStatement.h
@@ -7,6 +7,8 @@ namespace hsql {
 
 // Represents "column = value" expressions.
 struct UpdateClause {
+  ~UpdateClause();
+
   char* column;
   Expr* value;
 };
diff --git a/src/sql/statements.cpp b/src/sql/statements.cpp
index 69cfc70..0645b43 100644
--- a/src/sql/statements.cpp
+++ b/src/sql/statements.cpp
@@ -284,6 +284,15 @@ WithDescription::~WithDescription() {
   delete select;
 }
 
+LockingClause::~LockingClause() {
+  if (tables) {
+    for (char* dtable : *tables) {
+      free(dtable);
+    }
+    delete tables;
+  }
+}
+
 // SelectStatement
 SelectStatement::SelectStatement()
     : SQLStatement(kStmtSelect),
@@ -335,18 +344,17 @@ SelectStatement::~SelectStatement() {
 
   if (lockings) {
     for (LockingClause* lockingClause : *lockings) {
-      if (lockingClause->tables) {
-        for (char* dtable : *lockingClause->tables) {
-          free(dtable);
-        }
-        delete lockingClause->tables;
-      }
       delete lockingClause;
     }
     delete lockings;
   }
 }
 
+UpdateClause::~UpdateClause() {
+  free(column);
+  delete value;
+}
+
 // UpdateStatement
 UpdateStatement::UpdateStatement() : SQLStatement(kStmtUpdate), table(nullptr), updates(nullptr), where(nullptr) {}
 
@@ -356,8 +364,6 @@ UpdateStatement::~UpdateStatement() {
 
   if (updates) {
     for (UpdateClause* update : *updates) {
-      free(update->column);
-      delete update->value;
       delete update;
     }
     delete updates;
-- 
2.43.0


From 7e42ee42b961101ec16e424576f574b6131172b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 06/14] fix: CREATE INDEX drops (and leaks) the schema of the
 indexed table

---
 src/parser/bison_parser.cpp | 1097 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |    1 +
 2 files changed, 550 insertions(+), 548 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index e06ef6a..f747c2e 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -880,37 +880,37 @@ static const yytype_int16 yyrline[] =
      405,   406,   408,   412,   417,   421,   431,   432,   433,   435,
      435,   441,   447,   449,   453,   465,   471,   488,   503,   505,
      506,   507,   509,   523,   527,   537,   541,   565,   573,   586,
-     593,   608,   628,   629,   634,   645,   660,   672,   679,   686,
-     695,   696,   698,   702,   707,   708,   710,   721,   722,   723,
-     724,   725,   726,   727,   731,   732,   733,   734,   735,   736,
-     737,   738,   739,   740,   741,   743,   744,   746,   747,   748,
-     750,   751,   753,   757,   761,   766,   774,   775,   776,   777,
-     779,   780,   781,   783,   791,   797,   803,   809,   815,   816,
-     823,   829,   831,   841,   848,   859,   866,   874,   875,   882,
-     889,   893,   898,   908,   912,   916,   928,   928,   930,   931,
-     940,   941,   943,   957,   969,   974,   978,   982,   987,   988,
-     990,  1000,  1001,  1003,  1005,  1006,  1008,  1010,  1011,  1013,
-    1018,  1020,  1021,  1023,  1024,  1026,  1030,  1035,  1037,  1038,
-    1039,  1041,  1042,  1064,  1065,  1067,  1068,  1069,  1070,  1071,
-    1072,  1077,  1081,  1087,  1088,  1090,  1094,  1099,  1099,  1103,
-    1111,  1112,  1114,  1123,  1123,  1123,  1123,  1123,  1125,  1126,
-    1126,  1126,  1126,  1126,  1126,  1126,  1126,  1127,  1127,  1131,
-    1131,  1133,  1134,  1135,  1136,  1137,  1139,  1139,  1140,  1141,
-    1142,  1143,  1144,  1145,  1146,  1147,  1148,  1150,  1151,  1153,
-    1154,  1155,  1156,  1160,  1161,  1162,  1163,  1165,  1166,  1168,
-    1169,  1171,  1172,  1173,  1174,  1175,  1176,  1177,  1181,  1182,
-    1183,  1184,  1188,  1189,  1191,  1192,  1197,  1198,  1199,  1203,
-    1204,  1205,  1207,  1208,  1209,  1210,  1211,  1213,  1215,  1217,
-    1218,  1219,  1220,  1221,  1222,  1224,  1225,  1226,  1227,  1228,
-    1229,  1231,  1231,  1233,  1235,  1240,  1242,  1243,  1244,  1245,
-    1247,  1247,  1247,  1247,  1247,  1247,  1247,  1249,  1251,  1252,
-    1254,  1255,  1257,  1259,  1261,  1272,  1273,  1284,  1316,  1325,
-    1325,  1332,  1332,  1334,  1334,  1341,  1345,  1350,  1358,  1364,
-    1368,  1373,  1374,  1376,  1376,  1378,  1378,  1380,  1381,  1383,
-    1383,  1389,  1390,  1392,  1396,  1401,  1407,  1414,  1415,  1416,
-    1417,  1419,  1420,  1421,  1427,  1427,  1429,  1431,  1435,  1440,
-    1450,  1457,  1465,  1474,  1475,  1476,  1477,  1478,  1479,  1480,
-    1481,  1482,  1483,  1485,  1491,  1491,  1494,  1498
+     593,   608,   628,   629,   634,   645,   660,   672,   679,   687,
+     696,   697,   699,   703,   708,   709,   711,   722,   723,   724,
+     725,   726,   727,   728,   732,   733,   734,   735,   736,   737,
+     738,   739,   740,   741,   742,   744,   745,   747,   748,   749,
+     751,   752,   754,   758,   762,   767,   775,   776,   777,   778,
+     780,   781,   782,   784,   792,   798,   804,   810,   816,   817,
+     824,   830,   832,   842,   849,   860,   867,   875,   876,   883,
+     890,   894,   899,   909,   913,   917,   929,   929,   931,   932,
+     941,   942,   944,   958,   970,   975,   979,   983,   988,   989,
+     991,  1001,  1002,  1004,  1006,  1007,  1009,  1011,  1012,  1014,
+    1019,  1021,  1022,  1024,  1025,  1027,  1031,  1036,  1038,  1039,
+    1040,  1042,  1043,  1065,  1066,  1068,  1069,  1070,  1071,  1072,
+    1073,  1078,  1082,  1088,  1089,  1091,  1095,  1100,  1100,  1104,
+    1112,  1113,  1115,  1124,  1124,  1124,  1124,  1124,  1126,  1127,
+    1127,  1127,  1127,  1127,  1127,  1127,  1127,  1128,  1128,  1132,
+    1132,  1134,  1135,  1136,  1137,  1138,  1140,  1140,  1141,  1142,
+    1143,  1144,  1145,  1146,  1147,  1148,  1149,  1151,  1152,  1154,
+    1155,  1156,  1157,  1161,  1162,  1163,  1164,  1166,  1167,  1169,
+    1170,  1172,  1173,  1174,  1175,  1176,  1177,  1178,  1182,  1183,
+    1184,  1185,  1189,  1190,  1192,  1193,  1198,  1199,  1200,  1204,
+    1205,  1206,  1208,  1209,  1210,  1211,  1212,  1214,  1216,  1218,
+    1219,  1220,  1221,  1222,  1223,  1225,  1226,  1227,  1228,  1229,
+    1230,  1232,  1232,  1234,  1236,  1241,  1243,  1244,  1245,  1246,
+    1248,  1248,  1248,  1248,  1248,  1248,  1248,  1250,  1252,  1253,
+    1255,  1256,  1258,  1260,  1262,  1273,  1274,  1285,  1317,  1326,
+    1326,  1333,  1333,  1335,  1335,  1342,  1346,  1351,  1359,  1365,
+    1369,  1374,  1375,  1377,  1377,  1379,  1379,  1381,  1382,  1384,
+    1384,  1390,  1391,  1393,  1397,  1402,  1408,  1415,  1416,  1417,
+    1418,  1420,  1421,  1422,  1428,  1428,  1430,  1432,  1436,  1441,
+    1451,  1458,  1466,  1475,  1476,  1477,  1478,  1479,  1480,  1481,
+    1482,  1483,  1484,  1486,  1492,  1492,  1495,  1499
 };
 #endif
 
@@ -3915,14 +3915,15 @@ yyreduce:
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-6].bval);
+  (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3922 "bison_parser.cpp"
+#line 3923 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 686 "bison_parser.y"
+#line 687 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3931,53 +3932,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3935 "bison_parser.cpp"
+#line 3936 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 695 "bison_parser.y"
+#line 696 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3941 "bison_parser.cpp"
+#line 3942 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 696 "bison_parser.y"
+#line 697 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3947 "bison_parser.cpp"
+#line 3948 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 698 "bison_parser.y"
+#line 699 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3956 "bison_parser.cpp"
+#line 3957 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 702 "bison_parser.y"
+#line 703 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3965 "bison_parser.cpp"
+#line 3966 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 707 "bison_parser.y"
+#line 708 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3971 "bison_parser.cpp"
+#line 3972 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 708 "bison_parser.y"
+#line 709 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3977 "bison_parser.cpp"
+#line 3978 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 710 "bison_parser.y"
+#line 711 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -3988,192 +3989,192 @@ yyreduce:
   (yyvsp[0].column_constraints_t)->references = nullptr;
   delete (yyvsp[0].column_constraints_t);
 }
-#line 3992 "bison_parser.cpp"
+#line 3993 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 721 "bison_parser.y"
+#line 722 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3998 "bison_parser.cpp"
+#line 3999 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 722 "bison_parser.y"
+#line 723 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 4004 "bison_parser.cpp"
+#line 4005 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 723 "bison_parser.y"
+#line 724 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 4010 "bison_parser.cpp"
+#line 4011 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 724 "bison_parser.y"
+#line 725 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4016 "bison_parser.cpp"
+#line 4017 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 725 "bison_parser.y"
+#line 726 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 4022 "bison_parser.cpp"
+#line 4023 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 726 "bison_parser.y"
+#line 727 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4028 "bison_parser.cpp"
+#line 4029 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 727 "bison_parser.y"
+#line 728 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 4037 "bison_parser.cpp"
+#line 4038 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 731 "bison_parser.y"
+#line 732 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4043 "bison_parser.cpp"
+#line 4044 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 732 "bison_parser.y"
+#line 733 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4049 "bison_parser.cpp"
+#line 4050 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 733 "bison_parser.y"
+#line 734 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4055 "bison_parser.cpp"
+#line 4056 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 734 "bison_parser.y"
+#line 735 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4061 "bison_parser.cpp"
+#line 4062 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 735 "bison_parser.y"
+#line 736 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4067 "bison_parser.cpp"
+#line 4068 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 736 "bison_parser.y"
+#line 737 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4073 "bison_parser.cpp"
+#line 4074 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 737 "bison_parser.y"
+#line 738 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4079 "bison_parser.cpp"
+#line 4080 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 738 "bison_parser.y"
+#line 739 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4085 "bison_parser.cpp"
+#line 4086 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 739 "bison_parser.y"
+#line 740 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4091 "bison_parser.cpp"
+#line 4092 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 740 "bison_parser.y"
+#line 741 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4097 "bison_parser.cpp"
+#line 4098 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 741 "bison_parser.y"
+#line 742 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4103 "bison_parser.cpp"
+#line 4104 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 743 "bison_parser.y"
+#line 744 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4109 "bison_parser.cpp"
+#line 4110 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 744 "bison_parser.y"
+#line 745 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4115 "bison_parser.cpp"
+#line 4116 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 746 "bison_parser.y"
+#line 747 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4121 "bison_parser.cpp"
+#line 4122 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 747 "bison_parser.y"
+#line 748 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4127 "bison_parser.cpp"
+#line 4128 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 748 "bison_parser.y"
+#line 749 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4133 "bison_parser.cpp"
+#line 4134 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 750 "bison_parser.y"
+#line 751 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4139 "bison_parser.cpp"
+#line 4140 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 751 "bison_parser.y"
+#line 752 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4145 "bison_parser.cpp"
+#line 4146 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 753 "bison_parser.y"
+#line 754 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4154 "bison_parser.cpp"
+#line 4155 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 757 "bison_parser.y"
+#line 758 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4163 "bison_parser.cpp"
+#line 4164 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 761 "bison_parser.y"
+#line 762 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4173 "bison_parser.cpp"
+#line 4174 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 766 "bison_parser.y"
+#line 767 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4181,159 +4182,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4185 "bison_parser.cpp"
+#line 4186 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 774 "bison_parser.y"
+#line 775 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4191 "bison_parser.cpp"
+#line 4192 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 775 "bison_parser.y"
+#line 776 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4197 "bison_parser.cpp"
+#line 4198 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 776 "bison_parser.y"
+#line 777 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4203 "bison_parser.cpp"
+#line 4204 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 777 "bison_parser.y"
+#line 778 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4209 "bison_parser.cpp"
+#line 4210 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 779 "bison_parser.y"
+#line 780 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4215 "bison_parser.cpp"
+#line 4216 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 780 "bison_parser.y"
+#line 781 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4221 "bison_parser.cpp"
+#line 4222 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 781 "bison_parser.y"
+#line 782 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4227 "bison_parser.cpp"
+#line 4228 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 783 "bison_parser.y"
+#line 784 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4233 "bison_parser.cpp"
+#line 4234 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 791 "bison_parser.y"
+#line 792 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4244 "bison_parser.cpp"
+#line 4245 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 797 "bison_parser.y"
+#line 798 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4255 "bison_parser.cpp"
+#line 4256 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 803 "bison_parser.y"
+#line 804 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4265 "bison_parser.cpp"
+#line 4266 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 809 "bison_parser.y"
+#line 810 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4275 "bison_parser.cpp"
+#line 4276 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 815 "bison_parser.y"
+#line 816 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4281 "bison_parser.cpp"
+#line 4282 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 816 "bison_parser.y"
+#line 817 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4287 "bison_parser.cpp"
+#line 4288 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 823 "bison_parser.y"
+#line 824 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4297 "bison_parser.cpp"
+#line 4298 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 829 "bison_parser.y"
+#line 830 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4303 "bison_parser.cpp"
+#line 4304 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 831 "bison_parser.y"
+#line 832 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4312 "bison_parser.cpp"
+#line 4313 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 841 "bison_parser.y"
+#line 842 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4323 "bison_parser.cpp"
+#line 4324 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 848 "bison_parser.y"
+#line 849 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4333 "bison_parser.cpp"
+#line 4334 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 859 "bison_parser.y"
+#line 860 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4341,11 +4342,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4345 "bison_parser.cpp"
+#line 4346 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 866 "bison_parser.y"
+#line 867 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4353,80 +4354,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4357 "bison_parser.cpp"
+#line 4358 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 874 "bison_parser.y"
+#line 875 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4363 "bison_parser.cpp"
+#line 4364 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 875 "bison_parser.y"
+#line 876 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4369 "bison_parser.cpp"
+#line 4370 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 882 "bison_parser.y"
+#line 883 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4380 "bison_parser.cpp"
+#line 4381 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 889 "bison_parser.y"
+#line 890 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4389 "bison_parser.cpp"
+#line 4390 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 893 "bison_parser.y"
+#line 894 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4398 "bison_parser.cpp"
+#line 4399 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 898 "bison_parser.y"
+#line 899 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4408 "bison_parser.cpp"
+#line 4409 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 908 "bison_parser.y"
+#line 909 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4417 "bison_parser.cpp"
+#line 4418 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 912 "bison_parser.y"
+#line 913 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4426 "bison_parser.cpp"
+#line 4427 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 916 "bison_parser.y"
+#line 917 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4438,17 +4439,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4442 "bison_parser.cpp"
+#line 4443 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 930 "bison_parser.y"
+#line 931 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4448 "bison_parser.cpp"
+#line 4449 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 931 "bison_parser.y"
+#line 932 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4457,23 +4458,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4461 "bison_parser.cpp"
+#line 4462 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 940 "bison_parser.y"
+#line 941 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4467 "bison_parser.cpp"
+#line 4468 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 941 "bison_parser.y"
+#line 942 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4473 "bison_parser.cpp"
+#line 4474 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 943 "bison_parser.y"
+#line 944 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4488,11 +4489,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4492 "bison_parser.cpp"
+#line 4493 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 957 "bison_parser.y"
+#line 958 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4504,59 +4505,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4508 "bison_parser.cpp"
+#line 4509 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 969 "bison_parser.y"
+#line 970 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4517 "bison_parser.cpp"
+#line 4518 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 974 "bison_parser.y"
+#line 975 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4526 "bison_parser.cpp"
+#line 4527 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 978 "bison_parser.y"
+#line 979 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4535 "bison_parser.cpp"
+#line 4536 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 982 "bison_parser.y"
+#line 983 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4544 "bison_parser.cpp"
+#line 4545 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 987 "bison_parser.y"
+#line 988 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4550 "bison_parser.cpp"
+#line 4551 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 988 "bison_parser.y"
+#line 989 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4556 "bison_parser.cpp"
+#line 4557 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 990 "bison_parser.y"
+#line 991 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4566,141 +4567,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4570 "bison_parser.cpp"
+#line 4571 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1000 "bison_parser.y"
+#line 1001 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4576 "bison_parser.cpp"
+#line 4577 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1001 "bison_parser.y"
+#line 1002 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4582 "bison_parser.cpp"
+#line 4583 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1005 "bison_parser.y"
+#line 1006 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4588 "bison_parser.cpp"
+#line 4589 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1006 "bison_parser.y"
+#line 1007 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4594 "bison_parser.cpp"
+#line 4595 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1008 "bison_parser.y"
+#line 1009 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4600 "bison_parser.cpp"
+#line 4601 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1010 "bison_parser.y"
+#line 1011 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4606 "bison_parser.cpp"
+#line 4607 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1011 "bison_parser.y"
+#line 1012 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4612 "bison_parser.cpp"
+#line 4613 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1013 "bison_parser.y"
+#line 1014 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4622 "bison_parser.cpp"
+#line 4623 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1018 "bison_parser.y"
+#line 1019 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4628 "bison_parser.cpp"
+#line 4629 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1020 "bison_parser.y"
+#line 1021 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4634 "bison_parser.cpp"
+#line 4635 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1021 "bison_parser.y"
+#line 1022 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4640 "bison_parser.cpp"
+#line 4641 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1023 "bison_parser.y"
+#line 1024 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4646 "bison_parser.cpp"
+#line 4647 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1024 "bison_parser.y"
+#line 1025 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4652 "bison_parser.cpp"
+#line 4653 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1026 "bison_parser.y"
+#line 1027 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4661 "bison_parser.cpp"
+#line 4662 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1030 "bison_parser.y"
+#line 1031 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4670 "bison_parser.cpp"
+#line 4671 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1035 "bison_parser.y"
+#line 1036 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4676 "bison_parser.cpp"
+#line 4677 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1037 "bison_parser.y"
+#line 1038 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4682 "bison_parser.cpp"
+#line 4683 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1038 "bison_parser.y"
+#line 1039 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4688 "bison_parser.cpp"
+#line 4689 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1039 "bison_parser.y"
+#line 1040 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4694 "bison_parser.cpp"
+#line 4695 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1041 "bison_parser.y"
+#line 1042 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4700 "bison_parser.cpp"
+#line 4701 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1042 "bison_parser.y"
+#line 1043 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4720,115 +4721,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4724 "bison_parser.cpp"
+#line 4725 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1064 "bison_parser.y"
+#line 1065 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4730 "bison_parser.cpp"
+#line 4731 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1065 "bison_parser.y"
+#line 1066 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4736 "bison_parser.cpp"
+#line 4737 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1067 "bison_parser.y"
+#line 1068 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4742 "bison_parser.cpp"
+#line 4743 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1068 "bison_parser.y"
+#line 1069 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4748 "bison_parser.cpp"
+#line 4749 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1069 "bison_parser.y"
+#line 1070 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4754 "bison_parser.cpp"
+#line 4755 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1070 "bison_parser.y"
+#line 1071 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4760 "bison_parser.cpp"
+#line 4761 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1071 "bison_parser.y"
+#line 1072 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4766 "bison_parser.cpp"
+#line 4767 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1072 "bison_parser.y"
+#line 1073 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4772 "bison_parser.cpp"
+#line 4773 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1077 "bison_parser.y"
+#line 1078 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4781 "bison_parser.cpp"
+#line 4782 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1081 "bison_parser.y"
+#line 1082 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4790 "bison_parser.cpp"
+#line 4791 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1087 "bison_parser.y"
+#line 1088 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4796 "bison_parser.cpp"
+#line 4797 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1088 "bison_parser.y"
+#line 1089 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4802 "bison_parser.cpp"
+#line 4803 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1090 "bison_parser.y"
+#line 1091 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4811 "bison_parser.cpp"
+#line 4812 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1094 "bison_parser.y"
+#line 1095 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4820 "bison_parser.cpp"
+#line 4821 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1099 "bison_parser.y"
+#line 1100 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4828 "bison_parser.cpp"
+#line 4829 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1103 "bison_parser.y"
+#line 1104 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4837,23 +4838,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4841 "bison_parser.cpp"
+#line 4842 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1111 "bison_parser.y"
+#line 1112 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4847 "bison_parser.cpp"
+#line 4848 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1112 "bison_parser.y"
+#line 1113 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4853 "bison_parser.cpp"
+#line 4854 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1114 "bison_parser.y"
+#line 1115 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4862,522 +4863,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4866 "bison_parser.cpp"
+#line 4867 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1125 "bison_parser.y"
+#line 1126 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4872 "bison_parser.cpp"
+#line 4873 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1127 "bison_parser.y"
+#line 1128 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4880 "bison_parser.cpp"
+#line 4881 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1133 "bison_parser.y"
+#line 1134 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4886 "bison_parser.cpp"
+#line 4887 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1134 "bison_parser.y"
+#line 1135 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4892 "bison_parser.cpp"
+#line 4893 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1135 "bison_parser.y"
+#line 1136 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4898 "bison_parser.cpp"
+#line 4899 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1136 "bison_parser.y"
+#line 1137 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4904 "bison_parser.cpp"
+#line 4905 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1137 "bison_parser.y"
+#line 1138 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4910 "bison_parser.cpp"
+#line 4911 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1139 "bison_parser.y"
+#line 1140 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4916 "bison_parser.cpp"
+#line 4917 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1140 "bison_parser.y"
+#line 1141 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4922 "bison_parser.cpp"
+#line 4923 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1141 "bison_parser.y"
+#line 1142 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4928 "bison_parser.cpp"
+#line 4929 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1142 "bison_parser.y"
+#line 1143 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4934 "bison_parser.cpp"
+#line 4935 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1143 "bison_parser.y"
+#line 1144 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4940 "bison_parser.cpp"
+#line 4941 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1144 "bison_parser.y"
+#line 1145 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4946 "bison_parser.cpp"
+#line 4947 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1145 "bison_parser.y"
+#line 1146 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4952 "bison_parser.cpp"
+#line 4953 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1146 "bison_parser.y"
+#line 1147 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4958 "bison_parser.cpp"
+#line 4959 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1147 "bison_parser.y"
+#line 1148 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4964 "bison_parser.cpp"
+#line 4965 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1148 "bison_parser.y"
+#line 1149 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4970 "bison_parser.cpp"
+#line 4971 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1150 "bison_parser.y"
+#line 1151 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4976 "bison_parser.cpp"
+#line 4977 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1151 "bison_parser.y"
+#line 1152 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4982 "bison_parser.cpp"
+#line 4983 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1153 "bison_parser.y"
+#line 1154 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4988 "bison_parser.cpp"
+#line 4989 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1154 "bison_parser.y"
+#line 1155 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4994 "bison_parser.cpp"
+#line 4995 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1155 "bison_parser.y"
+#line 1156 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 5000 "bison_parser.cpp"
+#line 5001 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1156 "bison_parser.y"
+#line 1157 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 5006 "bison_parser.cpp"
+#line 5007 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1160 "bison_parser.y"
+#line 1161 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 5012 "bison_parser.cpp"
+#line 5013 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1161 "bison_parser.y"
+#line 1162 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5018 "bison_parser.cpp"
+#line 5019 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1162 "bison_parser.y"
+#line 1163 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 5024 "bison_parser.cpp"
+#line 5025 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1163 "bison_parser.y"
+#line 1164 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5030 "bison_parser.cpp"
+#line 5031 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1165 "bison_parser.y"
+#line 1166 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5036 "bison_parser.cpp"
+#line 5037 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1166 "bison_parser.y"
+#line 1167 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5042 "bison_parser.cpp"
+#line 5043 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1168 "bison_parser.y"
+#line 1169 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5048 "bison_parser.cpp"
+#line 5049 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1169 "bison_parser.y"
+#line 1170 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5054 "bison_parser.cpp"
+#line 5055 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1171 "bison_parser.y"
+#line 1172 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5060 "bison_parser.cpp"
+#line 5061 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1172 "bison_parser.y"
+#line 1173 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5066 "bison_parser.cpp"
+#line 5067 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1173 "bison_parser.y"
+#line 1174 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5072 "bison_parser.cpp"
+#line 5073 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1174 "bison_parser.y"
+#line 1175 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5078 "bison_parser.cpp"
+#line 5079 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1175 "bison_parser.y"
+#line 1176 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5084 "bison_parser.cpp"
+#line 5085 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1176 "bison_parser.y"
+#line 1177 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5090 "bison_parser.cpp"
+#line 5091 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1177 "bison_parser.y"
+#line 1178 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5096 "bison_parser.cpp"
+#line 5097 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1181 "bison_parser.y"
+#line 1182 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5102 "bison_parser.cpp"
+#line 5103 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1182 "bison_parser.y"
+#line 1183 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5108 "bison_parser.cpp"
+#line 5109 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1183 "bison_parser.y"
+#line 1184 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5114 "bison_parser.cpp"
+#line 5115 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1184 "bison_parser.y"
+#line 1185 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5120 "bison_parser.cpp"
+#line 5121 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1188 "bison_parser.y"
+#line 1189 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5126 "bison_parser.cpp"
+#line 5127 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1189 "bison_parser.y"
+#line 1190 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5132 "bison_parser.cpp"
+#line 5133 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1191 "bison_parser.y"
+#line 1192 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5138 "bison_parser.cpp"
+#line 5139 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1192 "bison_parser.y"
+#line 1193 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5144 "bison_parser.cpp"
+#line 5145 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1197 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5150 "bison_parser.cpp"
+#line 5151 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1198 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5156 "bison_parser.cpp"
+#line 5157 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1199 "bison_parser.y"
+#line 1200 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5164 "bison_parser.cpp"
+#line 5165 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1203 "bison_parser.y"
+#line 1204 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5170 "bison_parser.cpp"
+#line 5171 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1204 "bison_parser.y"
+#line 1205 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5176 "bison_parser.cpp"
+#line 5177 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1205 "bison_parser.y"
+#line 1206 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5182 "bison_parser.cpp"
+#line 5183 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1207 "bison_parser.y"
+#line 1208 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5188 "bison_parser.cpp"
+#line 5189 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1208 "bison_parser.y"
+#line 1209 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5194 "bison_parser.cpp"
+#line 5195 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1209 "bison_parser.y"
+#line 1210 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5200 "bison_parser.cpp"
+#line 5201 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1210 "bison_parser.y"
+#line 1211 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5206 "bison_parser.cpp"
+#line 5207 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1211 "bison_parser.y"
+#line 1212 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5212 "bison_parser.cpp"
+#line 5213 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1213 "bison_parser.y"
+#line 1214 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5218 "bison_parser.cpp"
+#line 5219 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1215 "bison_parser.y"
+#line 1216 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5224 "bison_parser.cpp"
+#line 5225 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1217 "bison_parser.y"
+#line 1218 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5230 "bison_parser.cpp"
+#line 5231 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1218 "bison_parser.y"
+#line 1219 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5236 "bison_parser.cpp"
+#line 5237 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1219 "bison_parser.y"
+#line 1220 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5242 "bison_parser.cpp"
+#line 5243 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1220 "bison_parser.y"
+#line 1221 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5248 "bison_parser.cpp"
+#line 5249 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1221 "bison_parser.y"
+#line 1222 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5254 "bison_parser.cpp"
+#line 5255 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1222 "bison_parser.y"
+#line 1223 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5260 "bison_parser.cpp"
+#line 5261 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1224 "bison_parser.y"
+#line 1225 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5266 "bison_parser.cpp"
+#line 5267 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1225 "bison_parser.y"
+#line 1226 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5272 "bison_parser.cpp"
+#line 5273 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1226 "bison_parser.y"
+#line 1227 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5278 "bison_parser.cpp"
+#line 5279 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1227 "bison_parser.y"
+#line 1228 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5284 "bison_parser.cpp"
+#line 5285 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1228 "bison_parser.y"
+#line 1229 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5290 "bison_parser.cpp"
+#line 5291 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1229 "bison_parser.y"
+#line 1230 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5296 "bison_parser.cpp"
+#line 5297 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1233 "bison_parser.y"
+#line 1234 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5302 "bison_parser.cpp"
+#line 5303 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1235 "bison_parser.y"
+#line 1236 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 5311 "bison_parser.cpp"
+#line 5312 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1240 "bison_parser.y"
+#line 1241 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5317 "bison_parser.cpp"
+#line 5318 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1242 "bison_parser.y"
+#line 1243 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5323 "bison_parser.cpp"
+#line 5324 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1243 "bison_parser.y"
+#line 1244 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5329 "bison_parser.cpp"
+#line 5330 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1244 "bison_parser.y"
+#line 1245 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5335 "bison_parser.cpp"
+#line 5336 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1245 "bison_parser.y"
+#line 1246 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5341 "bison_parser.cpp"
+#line 5342 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1249 "bison_parser.y"
+#line 1250 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5347 "bison_parser.cpp"
+#line 5348 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1251 "bison_parser.y"
+#line 1252 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5353 "bison_parser.cpp"
+#line 5354 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1252 "bison_parser.y"
+#line 1253 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5359 "bison_parser.cpp"
+#line 5360 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1254 "bison_parser.y"
+#line 1255 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5365 "bison_parser.cpp"
+#line 5366 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1257 "bison_parser.y"
+#line 1258 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5371 "bison_parser.cpp"
+#line 5372 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1259 "bison_parser.y"
+#line 1260 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5377 "bison_parser.cpp"
+#line 5378 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1261 "bison_parser.y"
+#line 1262 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5388,17 +5389,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5392 "bison_parser.cpp"
+#line 5393 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1272 "bison_parser.y"
+#line 1273 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5398 "bison_parser.cpp"
+#line 5399 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1273 "bison_parser.y"
+#line 1274 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5410,11 +5411,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5414 "bison_parser.cpp"
+#line 5415 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1284 "bison_parser.y"
+#line 1285 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5446,61 +5447,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5450 "bison_parser.cpp"
+#line 5451 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1316 "bison_parser.y"
+#line 1317 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5460 "bison_parser.cpp"
+#line 5461 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1325 "bison_parser.y"
+#line 1326 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5471 "bison_parser.cpp"
+#line 5472 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1334 "bison_parser.y"
+#line 1335 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5482 "bison_parser.cpp"
+#line 5483 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1341 "bison_parser.y"
+#line 1342 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5491 "bison_parser.cpp"
+#line 5492 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1345 "bison_parser.y"
+#line 1346 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5500 "bison_parser.cpp"
+#line 5501 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1350 "bison_parser.y"
+#line 1351 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5508,215 +5509,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5512 "bison_parser.cpp"
+#line 5513 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1358 "bison_parser.y"
+#line 1359 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5522 "bison_parser.cpp"
+#line 5523 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1364 "bison_parser.y"
+#line 1365 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5531 "bison_parser.cpp"
+#line 5532 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1368 "bison_parser.y"
+#line 1369 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5540 "bison_parser.cpp"
+#line 5541 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1373 "bison_parser.y"
+#line 1374 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5546 "bison_parser.cpp"
+#line 5547 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1374 "bison_parser.y"
+#line 1375 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5552 "bison_parser.cpp"
+#line 5553 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1376 "bison_parser.y"
+#line 1377 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5558 "bison_parser.cpp"
+#line 5559 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1378 "bison_parser.y"
+#line 1379 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5564 "bison_parser.cpp"
+#line 5565 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1380 "bison_parser.y"
+#line 1381 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5570 "bison_parser.cpp"
+#line 5571 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1381 "bison_parser.y"
+#line 1382 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5576 "bison_parser.cpp"
+#line 5577 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1383 "bison_parser.y"
+#line 1384 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5582 "bison_parser.cpp"
+#line 5583 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1389 "bison_parser.y"
+#line 1390 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5588 "bison_parser.cpp"
+#line 5589 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1390 "bison_parser.y"
+#line 1391 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5594 "bison_parser.cpp"
+#line 5595 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1392 "bison_parser.y"
+#line 1393 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5603 "bison_parser.cpp"
+#line 5604 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1396 "bison_parser.y"
+#line 1397 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5612 "bison_parser.cpp"
+#line 5613 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1401 "bison_parser.y"
+#line 1402 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5623 "bison_parser.cpp"
+#line 5624 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1407 "bison_parser.y"
+#line 1408 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5634 "bison_parser.cpp"
+#line 5635 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1414 "bison_parser.y"
+#line 1415 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5640 "bison_parser.cpp"
+#line 5641 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1415 "bison_parser.y"
+#line 1416 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5646 "bison_parser.cpp"
+#line 5647 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1416 "bison_parser.y"
+#line 1417 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5652 "bison_parser.cpp"
+#line 5653 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1417 "bison_parser.y"
+#line 1418 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5658 "bison_parser.cpp"
+#line 5659 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1419 "bison_parser.y"
+#line 1420 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5664 "bison_parser.cpp"
+#line 5665 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1420 "bison_parser.y"
+#line 1421 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5670 "bison_parser.cpp"
+#line 5671 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1421 "bison_parser.y"
+#line 1422 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5676 "bison_parser.cpp"
+#line 5677 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1427 "bison_parser.y"
+#line 1428 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5682 "bison_parser.cpp"
+#line 5683 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1429 "bison_parser.y"
+#line 1430 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5688 "bison_parser.cpp"
+#line 5689 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1431 "bison_parser.y"
+#line 1432 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5697 "bison_parser.cpp"
+#line 5698 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1435 "bison_parser.y"
+#line 1436 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5706 "bison_parser.cpp"
+#line 5707 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1440 "bison_parser.y"
+#line 1441 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5716 "bison_parser.cpp"
+#line 5717 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1450 "bison_parser.y"
+#line 1451 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5724,11 +5725,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5728 "bison_parser.cpp"
+#line 5729 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1457 "bison_parser.y"
+#line 1458 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5737,11 +5738,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5741 "bison_parser.cpp"
+#line 5742 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1465 "bison_parser.y"
+#line 1466 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5750,89 +5751,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5754 "bison_parser.cpp"
+#line 5755 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1474 "bison_parser.y"
+#line 1475 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5760 "bison_parser.cpp"
+#line 5761 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1475 "bison_parser.y"
+#line 1476 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5766 "bison_parser.cpp"
+#line 5767 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1476 "bison_parser.y"
+#line 1477 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5772 "bison_parser.cpp"
+#line 5773 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1477 "bison_parser.y"
+#line 1478 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5778 "bison_parser.cpp"
+#line 5779 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1478 "bison_parser.y"
+#line 1479 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5784 "bison_parser.cpp"
+#line 5785 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1479 "bison_parser.y"
+#line 1480 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5790 "bison_parser.cpp"
+#line 5791 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1480 "bison_parser.y"
+#line 1481 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5796 "bison_parser.cpp"
+#line 5797 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1481 "bison_parser.y"
+#line 1482 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5802 "bison_parser.cpp"
+#line 5803 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1482 "bison_parser.y"
+#line 1483 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5808 "bison_parser.cpp"
+#line 5809 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1483 "bison_parser.y"
+#line 1484 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5814 "bison_parser.cpp"
+#line 5815 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1494 "bison_parser.y"
+#line 1495 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5823 "bison_parser.cpp"
+#line 5824 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1498 "bison_parser.y"
+#line 1499 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5832 "bison_parser.cpp"
+#line 5833 "bison_parser.cpp"
     break;
 
 
-#line 5836 "bison_parser.cpp"
+#line 5837 "bison_parser.cpp"
 
       default: break;
     }
@@ -6061,7 +6062,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1504 "bison_parser.y"
+#line 1505 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index d0affb4..002a72b 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -680,6 +680,7 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$ = new CreateStatement(kCreateIndex);
   $$->indexName = $4;
   $$->ifNotExists = $3;
+  $$->schema = $6.schema;
   $$->tableName = $6.name;
   $$->indexColumns = $8;
 }
-- 
2.43.0


From ec01e83b070dba07804f875c78324075a12ee3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 07/14] fix: conflicting column constraints are an error of the
 query, not of the result

CREATE TABLE used the presence of an error message in the result as the flag for conflicting constraints, so a
result that still held the message of an earlier query made valid queries fail. Setting an error message leaked the
previous one.
---
 src/SQLParserResult.cpp     |    1 +
 src/parser/bison_parser.cpp | 1116 +++++++++++++++++------------------
 src/parser/bison_parser.y   |   12 +-
 3 files changed, 563 insertions(+), 566 deletions(-)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index b8a4343..601748b 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -42,6 +42,7 @@ int SQLParserResult::errorColumn() const { return errorColumn_; }
 void SQLParserResult::setIsValid(bool isValid) { isValid_ = isValid; }
 
 void SQLParserResult::setErrorDetails(char* errorMsg, int errorLine, int errorColumn) {
+  free(errorMsg_);
   errorMsg_ = errorMsg;
   errorLine_ = errorLine;
   errorColumn_ = errorColumn;
diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index f747c2e..6db8ff4 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -880,37 +880,37 @@ static const yytype_int16 yyrline[] =
      405,   406,   408,   412,   417,   421,   431,   432,   433,   435,
      435,   441,   447,   449,   453,   465,   471,   488,   503,   505,
      506,   507,   509,   523,   527,   537,   541,   565,   573,   586,
-     593,   608,   628,   629,   634,   645,   660,   672,   679,   687,
-     696,   697,   699,   703,   708,   709,   711,   722,   723,   724,
-     725,   726,   727,   728,   732,   733,   734,   735,   736,   737,
-     738,   739,   740,   741,   742,   744,   745,   747,   748,   749,
-     751,   752,   754,   758,   762,   767,   775,   776,   777,   778,
-     780,   781,   782,   784,   792,   798,   804,   810,   816,   817,
-     824,   830,   832,   842,   849,   860,   867,   875,   876,   883,
-     890,   894,   899,   909,   913,   917,   929,   929,   931,   932,
-     941,   942,   944,   958,   970,   975,   979,   983,   988,   989,
-     991,  1001,  1002,  1004,  1006,  1007,  1009,  1011,  1012,  1014,
-    1019,  1021,  1022,  1024,  1025,  1027,  1031,  1036,  1038,  1039,
-    1040,  1042,  1043,  1065,  1066,  1068,  1069,  1070,  1071,  1072,
-    1073,  1078,  1082,  1088,  1089,  1091,  1095,  1100,  1100,  1104,
-    1112,  1113,  1115,  1124,  1124,  1124,  1124,  1124,  1126,  1127,
-    1127,  1127,  1127,  1127,  1127,  1127,  1127,  1128,  1128,  1132,
-    1132,  1134,  1135,  1136,  1137,  1138,  1140,  1140,  1141,  1142,
-    1143,  1144,  1145,  1146,  1147,  1148,  1149,  1151,  1152,  1154,
-    1155,  1156,  1157,  1161,  1162,  1163,  1164,  1166,  1167,  1169,
-    1170,  1172,  1173,  1174,  1175,  1176,  1177,  1178,  1182,  1183,
-    1184,  1185,  1189,  1190,  1192,  1193,  1198,  1199,  1200,  1204,
-    1205,  1206,  1208,  1209,  1210,  1211,  1212,  1214,  1216,  1218,
-    1219,  1220,  1221,  1222,  1223,  1225,  1226,  1227,  1228,  1229,
-    1230,  1232,  1232,  1234,  1236,  1241,  1243,  1244,  1245,  1246,
-    1248,  1248,  1248,  1248,  1248,  1248,  1248,  1250,  1252,  1253,
-    1255,  1256,  1258,  1260,  1262,  1273,  1274,  1285,  1317,  1326,
-    1326,  1333,  1333,  1335,  1335,  1342,  1346,  1351,  1359,  1365,
-    1369,  1374,  1375,  1377,  1377,  1379,  1379,  1381,  1382,  1384,
-    1384,  1390,  1391,  1393,  1397,  1402,  1408,  1415,  1416,  1417,
-    1418,  1420,  1421,  1422,  1428,  1428,  1430,  1432,  1436,  1441,
-    1451,  1458,  1466,  1475,  1476,  1477,  1478,  1479,  1480,  1481,
-    1482,  1483,  1484,  1486,  1492,  1492,  1495,  1499
+     593,   608,   628,   629,   634,   645,   660,   668,   675,   683,
+     692,   693,   695,   699,   704,   705,   707,   720,   721,   722,
+     723,   724,   725,   726,   730,   731,   732,   733,   734,   735,
+     736,   737,   738,   739,   740,   742,   743,   745,   746,   747,
+     749,   750,   752,   756,   760,   765,   773,   774,   775,   776,
+     778,   779,   780,   782,   790,   796,   802,   808,   814,   815,
+     822,   828,   830,   840,   847,   858,   865,   873,   874,   881,
+     888,   892,   897,   907,   911,   915,   927,   927,   929,   930,
+     939,   940,   942,   956,   968,   973,   977,   981,   986,   987,
+     989,   999,  1000,  1002,  1004,  1005,  1007,  1009,  1010,  1012,
+    1017,  1019,  1020,  1022,  1023,  1025,  1029,  1034,  1036,  1037,
+    1038,  1040,  1041,  1063,  1064,  1066,  1067,  1068,  1069,  1070,
+    1071,  1076,  1080,  1086,  1087,  1089,  1093,  1098,  1098,  1102,
+    1110,  1111,  1113,  1122,  1122,  1122,  1122,  1122,  1124,  1125,
+    1125,  1125,  1125,  1125,  1125,  1125,  1125,  1126,  1126,  1130,
+    1130,  1132,  1133,  1134,  1135,  1136,  1138,  1138,  1139,  1140,
+    1141,  1142,  1143,  1144,  1145,  1146,  1147,  1149,  1150,  1152,
+    1153,  1154,  1155,  1159,  1160,  1161,  1162,  1164,  1165,  1167,
+    1168,  1170,  1171,  1172,  1173,  1174,  1175,  1176,  1180,  1181,
+    1182,  1183,  1187,  1188,  1190,  1191,  1196,  1197,  1198,  1202,
+    1203,  1204,  1206,  1207,  1208,  1209,  1210,  1212,  1214,  1216,
+    1217,  1218,  1219,  1220,  1221,  1223,  1224,  1225,  1226,  1227,
+    1228,  1230,  1230,  1232,  1234,  1239,  1241,  1242,  1243,  1244,
+    1246,  1246,  1246,  1246,  1246,  1246,  1246,  1248,  1250,  1251,
+    1253,  1254,  1256,  1258,  1260,  1271,  1272,  1283,  1315,  1324,
+    1324,  1331,  1331,  1333,  1333,  1340,  1344,  1349,  1357,  1363,
+    1367,  1372,  1373,  1375,  1375,  1377,  1377,  1379,  1380,  1382,
+    1382,  1388,  1389,  1391,  1395,  1400,  1406,  1413,  1414,  1415,
+    1416,  1418,  1419,  1420,  1426,  1426,  1428,  1430,  1434,  1439,
+    1449,  1456,  1464,  1473,  1474,  1475,  1476,  1477,  1478,  1479,
+    1480,  1481,  1482,  1484,  1490,  1490,  1493,  1497
 };
 #endif
 
@@ -3889,16 +3889,12 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->setColumnDefsAndConstraints((yyvsp[-1].table_element_vec));
   delete (yyvsp[-1].table_element_vec);
-  if (result->errorMsg()) {
-    delete (yyval.create_stmt);
-    YYERROR;
-  }
 }
-#line 3898 "bison_parser.cpp"
+#line 3894 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 672 "bison_parser.y"
+#line 668 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -3906,11 +3902,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3910 "bison_parser.cpp"
+#line 3906 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 679 "bison_parser.y"
+#line 675 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -3919,11 +3915,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3923 "bison_parser.cpp"
+#line 3919 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 687 "bison_parser.y"
+#line 683 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3932,249 +3928,251 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3936 "bison_parser.cpp"
+#line 3932 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 696 "bison_parser.y"
+#line 692 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3942 "bison_parser.cpp"
+#line 3938 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 697 "bison_parser.y"
+#line 693 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3948 "bison_parser.cpp"
+#line 3944 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 699 "bison_parser.y"
+#line 695 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3957 "bison_parser.cpp"
+#line 3953 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 703 "bison_parser.y"
+#line 699 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3966 "bison_parser.cpp"
+#line 3962 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 708 "bison_parser.y"
+#line 704 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3972 "bison_parser.cpp"
+#line 3968 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 709 "bison_parser.y"
+#line 705 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3978 "bison_parser.cpp"
+#line 3974 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 711 "bison_parser.y"
+#line 707 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
-  if (!(yyval.column_t)->trySetNullableExplicit()) {
-    yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{(yyvsp[-2].sval)}).c_str());
-  }
   // The column definition owns the constraints and references.
   (yyvsp[0].column_constraints_t)->constraints = nullptr;
   (yyvsp[0].column_constraints_t)->references = nullptr;
   delete (yyvsp[0].column_constraints_t);
+  if (!(yyval.column_t)->trySetNullableExplicit()) {
+    yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{(yyvsp[-2].sval)}).c_str());
+    delete (yyval.column_t);
+    YYERROR;
+  }
 }
-#line 3993 "bison_parser.cpp"
+#line 3991 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 722 "bison_parser.y"
+#line 720 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3999 "bison_parser.cpp"
+#line 3997 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 723 "bison_parser.y"
+#line 721 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 4005 "bison_parser.cpp"
+#line 4003 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 724 "bison_parser.y"
+#line 722 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 4011 "bison_parser.cpp"
+#line 4009 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 725 "bison_parser.y"
+#line 723 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4017 "bison_parser.cpp"
+#line 4015 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 726 "bison_parser.y"
+#line 724 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 4023 "bison_parser.cpp"
+#line 4021 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 727 "bison_parser.y"
+#line 725 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4029 "bison_parser.cpp"
+#line 4027 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 728 "bison_parser.y"
+#line 726 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 4038 "bison_parser.cpp"
+#line 4036 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 732 "bison_parser.y"
+#line 730 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4044 "bison_parser.cpp"
+#line 4042 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 733 "bison_parser.y"
+#line 731 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4050 "bison_parser.cpp"
+#line 4048 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 734 "bison_parser.y"
+#line 732 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4056 "bison_parser.cpp"
+#line 4054 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 735 "bison_parser.y"
+#line 733 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4062 "bison_parser.cpp"
+#line 4060 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 736 "bison_parser.y"
+#line 734 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4068 "bison_parser.cpp"
+#line 4066 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 737 "bison_parser.y"
+#line 735 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4074 "bison_parser.cpp"
+#line 4072 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 738 "bison_parser.y"
+#line 736 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4080 "bison_parser.cpp"
+#line 4078 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 739 "bison_parser.y"
+#line 737 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4086 "bison_parser.cpp"
+#line 4084 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 740 "bison_parser.y"
+#line 738 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4092 "bison_parser.cpp"
+#line 4090 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 741 "bison_parser.y"
+#line 739 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4098 "bison_parser.cpp"
+#line 4096 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 742 "bison_parser.y"
+#line 740 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4104 "bison_parser.cpp"
+#line 4102 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 744 "bison_parser.y"
+#line 742 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4110 "bison_parser.cpp"
+#line 4108 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 745 "bison_parser.y"
+#line 743 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4116 "bison_parser.cpp"
+#line 4114 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 747 "bison_parser.y"
+#line 745 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4122 "bison_parser.cpp"
+#line 4120 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 748 "bison_parser.y"
+#line 746 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4128 "bison_parser.cpp"
+#line 4126 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 749 "bison_parser.y"
+#line 747 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4134 "bison_parser.cpp"
+#line 4132 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 751 "bison_parser.y"
+#line 749 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4140 "bison_parser.cpp"
+#line 4138 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 752 "bison_parser.y"
+#line 750 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4146 "bison_parser.cpp"
+#line 4144 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 754 "bison_parser.y"
+#line 752 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4155 "bison_parser.cpp"
+#line 4153 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 758 "bison_parser.y"
+#line 756 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4164 "bison_parser.cpp"
+#line 4162 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 762 "bison_parser.y"
+#line 760 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4174 "bison_parser.cpp"
+#line 4172 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 767 "bison_parser.y"
+#line 765 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4182,159 +4180,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4186 "bison_parser.cpp"
+#line 4184 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 775 "bison_parser.y"
+#line 773 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4192 "bison_parser.cpp"
+#line 4190 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 776 "bison_parser.y"
+#line 774 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4198 "bison_parser.cpp"
+#line 4196 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 777 "bison_parser.y"
+#line 775 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4204 "bison_parser.cpp"
+#line 4202 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 778 "bison_parser.y"
+#line 776 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4210 "bison_parser.cpp"
+#line 4208 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 780 "bison_parser.y"
+#line 778 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4216 "bison_parser.cpp"
+#line 4214 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 781 "bison_parser.y"
+#line 779 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4222 "bison_parser.cpp"
+#line 4220 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 782 "bison_parser.y"
+#line 780 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4228 "bison_parser.cpp"
+#line 4226 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 784 "bison_parser.y"
+#line 782 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4234 "bison_parser.cpp"
+#line 4232 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 792 "bison_parser.y"
+#line 790 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4245 "bison_parser.cpp"
+#line 4243 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 798 "bison_parser.y"
+#line 796 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4256 "bison_parser.cpp"
+#line 4254 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 804 "bison_parser.y"
+#line 802 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4266 "bison_parser.cpp"
+#line 4264 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 810 "bison_parser.y"
+#line 808 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4276 "bison_parser.cpp"
+#line 4274 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 816 "bison_parser.y"
+#line 814 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4282 "bison_parser.cpp"
+#line 4280 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 817 "bison_parser.y"
+#line 815 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4288 "bison_parser.cpp"
+#line 4286 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 824 "bison_parser.y"
+#line 822 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4298 "bison_parser.cpp"
+#line 4296 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 830 "bison_parser.y"
+#line 828 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4304 "bison_parser.cpp"
+#line 4302 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 832 "bison_parser.y"
+#line 830 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4313 "bison_parser.cpp"
+#line 4311 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 842 "bison_parser.y"
+#line 840 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4324 "bison_parser.cpp"
+#line 4322 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 849 "bison_parser.y"
+#line 847 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4334 "bison_parser.cpp"
+#line 4332 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 860 "bison_parser.y"
+#line 858 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4342,11 +4340,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4346 "bison_parser.cpp"
+#line 4344 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 867 "bison_parser.y"
+#line 865 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4354,80 +4352,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4358 "bison_parser.cpp"
+#line 4356 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 875 "bison_parser.y"
+#line 873 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4364 "bison_parser.cpp"
+#line 4362 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 876 "bison_parser.y"
+#line 874 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4370 "bison_parser.cpp"
+#line 4368 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 883 "bison_parser.y"
+#line 881 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4381 "bison_parser.cpp"
+#line 4379 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 890 "bison_parser.y"
+#line 888 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4390 "bison_parser.cpp"
+#line 4388 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 894 "bison_parser.y"
+#line 892 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4399 "bison_parser.cpp"
+#line 4397 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 899 "bison_parser.y"
+#line 897 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4409 "bison_parser.cpp"
+#line 4407 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 909 "bison_parser.y"
+#line 907 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4418 "bison_parser.cpp"
+#line 4416 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 913 "bison_parser.y"
+#line 911 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4427 "bison_parser.cpp"
+#line 4425 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 917 "bison_parser.y"
+#line 915 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4439,17 +4437,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4443 "bison_parser.cpp"
+#line 4441 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 931 "bison_parser.y"
+#line 929 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4449 "bison_parser.cpp"
+#line 4447 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 932 "bison_parser.y"
+#line 930 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4458,23 +4456,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4462 "bison_parser.cpp"
+#line 4460 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 941 "bison_parser.y"
+#line 939 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4468 "bison_parser.cpp"
+#line 4466 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 942 "bison_parser.y"
+#line 940 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4474 "bison_parser.cpp"
+#line 4472 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 944 "bison_parser.y"
+#line 942 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4489,11 +4487,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4493 "bison_parser.cpp"
+#line 4491 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 958 "bison_parser.y"
+#line 956 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4505,59 +4503,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4509 "bison_parser.cpp"
+#line 4507 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 970 "bison_parser.y"
+#line 968 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4518 "bison_parser.cpp"
+#line 4516 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 975 "bison_parser.y"
+#line 973 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4527 "bison_parser.cpp"
+#line 4525 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 979 "bison_parser.y"
+#line 977 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4536 "bison_parser.cpp"
+#line 4534 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 983 "bison_parser.y"
+#line 981 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4545 "bison_parser.cpp"
+#line 4543 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 988 "bison_parser.y"
+#line 986 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4551 "bison_parser.cpp"
+#line 4549 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 989 "bison_parser.y"
+#line 987 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4557 "bison_parser.cpp"
+#line 4555 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 991 "bison_parser.y"
+#line 989 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4567,141 +4565,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4571 "bison_parser.cpp"
+#line 4569 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1001 "bison_parser.y"
+#line 999 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4577 "bison_parser.cpp"
+#line 4575 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1002 "bison_parser.y"
+#line 1000 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4583 "bison_parser.cpp"
+#line 4581 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1006 "bison_parser.y"
+#line 1004 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4589 "bison_parser.cpp"
+#line 4587 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1007 "bison_parser.y"
+#line 1005 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4595 "bison_parser.cpp"
+#line 4593 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1009 "bison_parser.y"
+#line 1007 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4601 "bison_parser.cpp"
+#line 4599 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1011 "bison_parser.y"
+#line 1009 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4607 "bison_parser.cpp"
+#line 4605 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1012 "bison_parser.y"
+#line 1010 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4613 "bison_parser.cpp"
+#line 4611 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1014 "bison_parser.y"
+#line 1012 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4623 "bison_parser.cpp"
+#line 4621 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1019 "bison_parser.y"
+#line 1017 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4629 "bison_parser.cpp"
+#line 4627 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1021 "bison_parser.y"
+#line 1019 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4635 "bison_parser.cpp"
+#line 4633 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1022 "bison_parser.y"
+#line 1020 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4641 "bison_parser.cpp"
+#line 4639 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1024 "bison_parser.y"
+#line 1022 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4647 "bison_parser.cpp"
+#line 4645 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1025 "bison_parser.y"
+#line 1023 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4653 "bison_parser.cpp"
+#line 4651 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1027 "bison_parser.y"
+#line 1025 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4662 "bison_parser.cpp"
+#line 4660 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1031 "bison_parser.y"
+#line 1029 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4671 "bison_parser.cpp"
+#line 4669 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1036 "bison_parser.y"
+#line 1034 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4677 "bison_parser.cpp"
+#line 4675 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1038 "bison_parser.y"
+#line 1036 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4683 "bison_parser.cpp"
+#line 4681 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1039 "bison_parser.y"
+#line 1037 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4689 "bison_parser.cpp"
+#line 4687 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1040 "bison_parser.y"
+#line 1038 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4695 "bison_parser.cpp"
+#line 4693 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1042 "bison_parser.y"
+#line 1040 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4701 "bison_parser.cpp"
+#line 4699 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1043 "bison_parser.y"
+#line 1041 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4721,115 +4719,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4725 "bison_parser.cpp"
+#line 4723 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1065 "bison_parser.y"
+#line 1063 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4731 "bison_parser.cpp"
+#line 4729 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1066 "bison_parser.y"
+#line 1064 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4737 "bison_parser.cpp"
+#line 4735 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1068 "bison_parser.y"
+#line 1066 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4743 "bison_parser.cpp"
+#line 4741 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1069 "bison_parser.y"
+#line 1067 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4749 "bison_parser.cpp"
+#line 4747 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1070 "bison_parser.y"
+#line 1068 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4755 "bison_parser.cpp"
+#line 4753 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1071 "bison_parser.y"
+#line 1069 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4761 "bison_parser.cpp"
+#line 4759 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1072 "bison_parser.y"
+#line 1070 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4767 "bison_parser.cpp"
+#line 4765 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1073 "bison_parser.y"
+#line 1071 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4773 "bison_parser.cpp"
+#line 4771 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1078 "bison_parser.y"
+#line 1076 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4782 "bison_parser.cpp"
+#line 4780 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1082 "bison_parser.y"
+#line 1080 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4791 "bison_parser.cpp"
+#line 4789 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1088 "bison_parser.y"
+#line 1086 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4797 "bison_parser.cpp"
+#line 4795 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1089 "bison_parser.y"
+#line 1087 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4803 "bison_parser.cpp"
+#line 4801 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1091 "bison_parser.y"
+#line 1089 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4812 "bison_parser.cpp"
+#line 4810 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1095 "bison_parser.y"
+#line 1093 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4821 "bison_parser.cpp"
+#line 4819 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1100 "bison_parser.y"
+#line 1098 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4829 "bison_parser.cpp"
+#line 4827 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1104 "bison_parser.y"
+#line 1102 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4838,23 +4836,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4842 "bison_parser.cpp"
+#line 4840 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1112 "bison_parser.y"
+#line 1110 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4848 "bison_parser.cpp"
+#line 4846 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1113 "bison_parser.y"
+#line 1111 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4854 "bison_parser.cpp"
+#line 4852 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1115 "bison_parser.y"
+#line 1113 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4863,522 +4861,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4867 "bison_parser.cpp"
+#line 4865 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1126 "bison_parser.y"
+#line 1124 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4873 "bison_parser.cpp"
+#line 4871 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1128 "bison_parser.y"
+#line 1126 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4881 "bison_parser.cpp"
+#line 4879 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1134 "bison_parser.y"
+#line 1132 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4887 "bison_parser.cpp"
+#line 4885 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1135 "bison_parser.y"
+#line 1133 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4893 "bison_parser.cpp"
+#line 4891 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1136 "bison_parser.y"
+#line 1134 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4899 "bison_parser.cpp"
+#line 4897 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1137 "bison_parser.y"
+#line 1135 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4905 "bison_parser.cpp"
+#line 4903 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1138 "bison_parser.y"
+#line 1136 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4911 "bison_parser.cpp"
+#line 4909 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1140 "bison_parser.y"
+#line 1138 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4917 "bison_parser.cpp"
+#line 4915 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1141 "bison_parser.y"
+#line 1139 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4923 "bison_parser.cpp"
+#line 4921 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1142 "bison_parser.y"
+#line 1140 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4929 "bison_parser.cpp"
+#line 4927 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1143 "bison_parser.y"
+#line 1141 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4935 "bison_parser.cpp"
+#line 4933 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1144 "bison_parser.y"
+#line 1142 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4941 "bison_parser.cpp"
+#line 4939 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1145 "bison_parser.y"
+#line 1143 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4947 "bison_parser.cpp"
+#line 4945 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1146 "bison_parser.y"
+#line 1144 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4953 "bison_parser.cpp"
+#line 4951 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1147 "bison_parser.y"
+#line 1145 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4959 "bison_parser.cpp"
+#line 4957 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1148 "bison_parser.y"
+#line 1146 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4965 "bison_parser.cpp"
+#line 4963 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1149 "bison_parser.y"
+#line 1147 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4971 "bison_parser.cpp"
+#line 4969 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1151 "bison_parser.y"
+#line 1149 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4977 "bison_parser.cpp"
+#line 4975 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1152 "bison_parser.y"
+#line 1150 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4983 "bison_parser.cpp"
+#line 4981 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1154 "bison_parser.y"
+#line 1152 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4989 "bison_parser.cpp"
+#line 4987 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1155 "bison_parser.y"
+#line 1153 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4995 "bison_parser.cpp"
+#line 4993 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1156 "bison_parser.y"
+#line 1154 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 5001 "bison_parser.cpp"
+#line 4999 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1157 "bison_parser.y"
+#line 1155 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 5007 "bison_parser.cpp"
+#line 5005 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1161 "bison_parser.y"
+#line 1159 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 5013 "bison_parser.cpp"
+#line 5011 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1162 "bison_parser.y"
+#line 1160 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5019 "bison_parser.cpp"
+#line 5017 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1163 "bison_parser.y"
+#line 1161 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 5025 "bison_parser.cpp"
+#line 5023 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1164 "bison_parser.y"
+#line 1162 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5031 "bison_parser.cpp"
+#line 5029 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1166 "bison_parser.y"
+#line 1164 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5037 "bison_parser.cpp"
+#line 5035 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1167 "bison_parser.y"
+#line 1165 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5043 "bison_parser.cpp"
+#line 5041 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1169 "bison_parser.y"
+#line 1167 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5049 "bison_parser.cpp"
+#line 5047 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1170 "bison_parser.y"
+#line 1168 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5055 "bison_parser.cpp"
+#line 5053 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1172 "bison_parser.y"
+#line 1170 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5061 "bison_parser.cpp"
+#line 5059 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1173 "bison_parser.y"
+#line 1171 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5067 "bison_parser.cpp"
+#line 5065 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1174 "bison_parser.y"
+#line 1172 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5073 "bison_parser.cpp"
+#line 5071 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1175 "bison_parser.y"
+#line 1173 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5079 "bison_parser.cpp"
+#line 5077 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1176 "bison_parser.y"
+#line 1174 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5085 "bison_parser.cpp"
+#line 5083 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1177 "bison_parser.y"
+#line 1175 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5091 "bison_parser.cpp"
+#line 5089 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1178 "bison_parser.y"
+#line 1176 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5097 "bison_parser.cpp"
+#line 5095 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1182 "bison_parser.y"
+#line 1180 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5103 "bison_parser.cpp"
+#line 5101 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1183 "bison_parser.y"
+#line 1181 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5109 "bison_parser.cpp"
+#line 5107 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1184 "bison_parser.y"
+#line 1182 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5115 "bison_parser.cpp"
+#line 5113 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1185 "bison_parser.y"
+#line 1183 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5121 "bison_parser.cpp"
+#line 5119 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1189 "bison_parser.y"
+#line 1187 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5127 "bison_parser.cpp"
+#line 5125 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1190 "bison_parser.y"
+#line 1188 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5133 "bison_parser.cpp"
+#line 5131 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1192 "bison_parser.y"
+#line 1190 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5139 "bison_parser.cpp"
+#line 5137 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1193 "bison_parser.y"
+#line 1191 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5145 "bison_parser.cpp"
+#line 5143 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1198 "bison_parser.y"
+#line 1196 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5151 "bison_parser.cpp"
+#line 5149 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1199 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5157 "bison_parser.cpp"
+#line 5155 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1200 "bison_parser.y"
+#line 1198 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5165 "bison_parser.cpp"
+#line 5163 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1204 "bison_parser.y"
+#line 1202 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5171 "bison_parser.cpp"
+#line 5169 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1205 "bison_parser.y"
+#line 1203 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5177 "bison_parser.cpp"
+#line 5175 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1206 "bison_parser.y"
+#line 1204 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5183 "bison_parser.cpp"
+#line 5181 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1208 "bison_parser.y"
+#line 1206 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5189 "bison_parser.cpp"
+#line 5187 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1209 "bison_parser.y"
+#line 1207 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5195 "bison_parser.cpp"
+#line 5193 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1210 "bison_parser.y"
+#line 1208 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5201 "bison_parser.cpp"
+#line 5199 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1211 "bison_parser.y"
+#line 1209 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5207 "bison_parser.cpp"
+#line 5205 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1212 "bison_parser.y"
+#line 1210 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5213 "bison_parser.cpp"
+#line 5211 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1214 "bison_parser.y"
+#line 1212 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5219 "bison_parser.cpp"
+#line 5217 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1216 "bison_parser.y"
+#line 1214 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5225 "bison_parser.cpp"
+#line 5223 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1218 "bison_parser.y"
+#line 1216 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5231 "bison_parser.cpp"
+#line 5229 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1219 "bison_parser.y"
+#line 1217 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5237 "bison_parser.cpp"
+#line 5235 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1220 "bison_parser.y"
+#line 1218 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5243 "bison_parser.cpp"
+#line 5241 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1221 "bison_parser.y"
+#line 1219 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5249 "bison_parser.cpp"
+#line 5247 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1222 "bison_parser.y"
+#line 1220 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5255 "bison_parser.cpp"
+#line 5253 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1223 "bison_parser.y"
+#line 1221 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5261 "bison_parser.cpp"
+#line 5259 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1225 "bison_parser.y"
+#line 1223 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5267 "bison_parser.cpp"
+#line 5265 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1226 "bison_parser.y"
+#line 1224 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5273 "bison_parser.cpp"
+#line 5271 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1227 "bison_parser.y"
+#line 1225 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5279 "bison_parser.cpp"
+#line 5277 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1228 "bison_parser.y"
+#line 1226 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5285 "bison_parser.cpp"
+#line 5283 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1229 "bison_parser.y"
+#line 1227 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5291 "bison_parser.cpp"
+#line 5289 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1230 "bison_parser.y"
+#line 1228 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5297 "bison_parser.cpp"
+#line 5295 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1234 "bison_parser.y"
+#line 1232 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5303 "bison_parser.cpp"
+#line 5301 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1236 "bison_parser.y"
+#line 1234 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 5312 "bison_parser.cpp"
+#line 5310 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1241 "bison_parser.y"
+#line 1239 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5318 "bison_parser.cpp"
+#line 5316 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1243 "bison_parser.y"
+#line 1241 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5324 "bison_parser.cpp"
+#line 5322 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1244 "bison_parser.y"
+#line 1242 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5330 "bison_parser.cpp"
+#line 5328 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1245 "bison_parser.y"
+#line 1243 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5336 "bison_parser.cpp"
+#line 5334 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1246 "bison_parser.y"
+#line 1244 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5342 "bison_parser.cpp"
+#line 5340 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1250 "bison_parser.y"
+#line 1248 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5348 "bison_parser.cpp"
+#line 5346 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1252 "bison_parser.y"
+#line 1250 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5354 "bison_parser.cpp"
+#line 5352 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1253 "bison_parser.y"
+#line 1251 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5360 "bison_parser.cpp"
+#line 5358 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1255 "bison_parser.y"
+#line 1253 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5366 "bison_parser.cpp"
+#line 5364 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1258 "bison_parser.y"
+#line 1256 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5372 "bison_parser.cpp"
+#line 5370 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1260 "bison_parser.y"
+#line 1258 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5378 "bison_parser.cpp"
+#line 5376 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1262 "bison_parser.y"
+#line 1260 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5389,17 +5387,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5393 "bison_parser.cpp"
+#line 5391 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1273 "bison_parser.y"
+#line 1271 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5399 "bison_parser.cpp"
+#line 5397 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1274 "bison_parser.y"
+#line 1272 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5411,11 +5409,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5415 "bison_parser.cpp"
+#line 5413 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1285 "bison_parser.y"
+#line 1283 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5447,61 +5445,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5451 "bison_parser.cpp"
+#line 5449 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1317 "bison_parser.y"
+#line 1315 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5461 "bison_parser.cpp"
+#line 5459 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1326 "bison_parser.y"
+#line 1324 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5472 "bison_parser.cpp"
+#line 5470 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1335 "bison_parser.y"
+#line 1333 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5483 "bison_parser.cpp"
+#line 5481 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1342 "bison_parser.y"
+#line 1340 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5492 "bison_parser.cpp"
+#line 5490 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1346 "bison_parser.y"
+#line 1344 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5501 "bison_parser.cpp"
+#line 5499 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1351 "bison_parser.y"
+#line 1349 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5509,215 +5507,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5513 "bison_parser.cpp"
+#line 5511 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1359 "bison_parser.y"
+#line 1357 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5523 "bison_parser.cpp"
+#line 5521 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1365 "bison_parser.y"
+#line 1363 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5532 "bison_parser.cpp"
+#line 5530 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1369 "bison_parser.y"
+#line 1367 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5541 "bison_parser.cpp"
+#line 5539 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1374 "bison_parser.y"
+#line 1372 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5547 "bison_parser.cpp"
+#line 5545 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1375 "bison_parser.y"
+#line 1373 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5553 "bison_parser.cpp"
+#line 5551 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1377 "bison_parser.y"
+#line 1375 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5559 "bison_parser.cpp"
+#line 5557 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1379 "bison_parser.y"
+#line 1377 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5565 "bison_parser.cpp"
+#line 5563 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1381 "bison_parser.y"
+#line 1379 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5571 "bison_parser.cpp"
+#line 5569 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1382 "bison_parser.y"
+#line 1380 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5577 "bison_parser.cpp"
+#line 5575 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1384 "bison_parser.y"
+#line 1382 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5583 "bison_parser.cpp"
+#line 5581 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1390 "bison_parser.y"
+#line 1388 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5589 "bison_parser.cpp"
+#line 5587 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1391 "bison_parser.y"
+#line 1389 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5595 "bison_parser.cpp"
+#line 5593 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1393 "bison_parser.y"
+#line 1391 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5604 "bison_parser.cpp"
+#line 5602 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1397 "bison_parser.y"
+#line 1395 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5613 "bison_parser.cpp"
+#line 5611 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1402 "bison_parser.y"
+#line 1400 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5624 "bison_parser.cpp"
+#line 5622 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1408 "bison_parser.y"
+#line 1406 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5635 "bison_parser.cpp"
+#line 5633 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1415 "bison_parser.y"
+#line 1413 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5641 "bison_parser.cpp"
+#line 5639 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1416 "bison_parser.y"
+#line 1414 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5647 "bison_parser.cpp"
+#line 5645 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1417 "bison_parser.y"
+#line 1415 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5653 "bison_parser.cpp"
+#line 5651 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1418 "bison_parser.y"
+#line 1416 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5659 "bison_parser.cpp"
+#line 5657 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1420 "bison_parser.y"
+#line 1418 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5665 "bison_parser.cpp"
+#line 5663 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1421 "bison_parser.y"
+#line 1419 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5671 "bison_parser.cpp"
+#line 5669 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1422 "bison_parser.y"
+#line 1420 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5677 "bison_parser.cpp"
+#line 5675 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1428 "bison_parser.y"
+#line 1426 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5683 "bison_parser.cpp"
+#line 5681 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1430 "bison_parser.y"
+#line 1428 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5689 "bison_parser.cpp"
+#line 5687 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1432 "bison_parser.y"
+#line 1430 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5698 "bison_parser.cpp"
+#line 5696 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1436 "bison_parser.y"
+#line 1434 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5707 "bison_parser.cpp"
+#line 5705 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1441 "bison_parser.y"
+#line 1439 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5717 "bison_parser.cpp"
+#line 5715 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1451 "bison_parser.y"
+#line 1449 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5725,11 +5723,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5729 "bison_parser.cpp"
+#line 5727 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1458 "bison_parser.y"
+#line 1456 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5738,11 +5736,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5742 "bison_parser.cpp"
+#line 5740 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1466 "bison_parser.y"
+#line 1464 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5751,89 +5749,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5755 "bison_parser.cpp"
+#line 5753 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1475 "bison_parser.y"
+#line 1473 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5761 "bison_parser.cpp"
+#line 5759 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1476 "bison_parser.y"
+#line 1474 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5767 "bison_parser.cpp"
+#line 5765 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1477 "bison_parser.y"
+#line 1475 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5773 "bison_parser.cpp"
+#line 5771 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1478 "bison_parser.y"
+#line 1476 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5779 "bison_parser.cpp"
+#line 5777 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1479 "bison_parser.y"
+#line 1477 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5785 "bison_parser.cpp"
+#line 5783 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1480 "bison_parser.y"
+#line 1478 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5791 "bison_parser.cpp"
+#line 5789 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1481 "bison_parser.y"
+#line 1479 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5797 "bison_parser.cpp"
+#line 5795 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1482 "bison_parser.y"
+#line 1480 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5803 "bison_parser.cpp"
+#line 5801 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1483 "bison_parser.y"
+#line 1481 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5809 "bison_parser.cpp"
+#line 5807 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1484 "bison_parser.y"
+#line 1482 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5815 "bison_parser.cpp"
+#line 5813 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1495 "bison_parser.y"
+#line 1493 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5824 "bison_parser.cpp"
+#line 5822 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1499 "bison_parser.y"
+#line 1497 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5833 "bison_parser.cpp"
+#line 5831 "bison_parser.cpp"
     break;
 
 
-#line 5837 "bison_parser.cpp"
+#line 5835 "bison_parser.cpp"
 
       default: break;
     }
@@ -6062,7 +6060,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1505 "bison_parser.y"
+#line 1503 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 002a72b..65e1c92 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -664,10 +664,6 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$->tableName = $4.name;
   $$->setColumnDefsAndConstraints($6);
   delete $6;
-  if (result->errorMsg()) {
-    delete $$;
-    YYERROR;
-  }
 }
 | CREATE TABLE opt_not_exists table_name AS select_statement {
   $$ = new CreateStatement(kCreateTable);
@@ -710,13 +706,15 @@ table_elem : column_def { $$ = $1; }
 
 column_def : IDENTIFIER column_type opt_column_constraints {
   $$ = new ColumnDefinition($1, $2, $3->constraints, $3->references);
-  if (!$$->trySetNullableExplicit()) {
-    yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{$1}).c_str());
-  }
   // The column definition owns the constraints and references.
   $3->constraints = nullptr;
   $3->references = nullptr;
   delete $3;
+  if (!$$->trySetNullableExplicit()) {
+    yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{$1}).c_str());
+    delete $$;
+    YYERROR;
+  }
 };
 
 column_type : BIGINT { $$ = ColumnType{DataType::BIGINT}; }
-- 
2.43.0


From 77773c38a83a53cf3933f7331cb1a9cacee68c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 08/14] fix: moving, resetting, and releasing a result leave no
 stale data behind

Moving onto a result leaked its statements and error message and lost the error position and the parameters of the
source. Resetting a result and releasing its statements kept pointers to statements it does not own anymore in the
parameter list. The error position of a new result was not initialized.
---
 src/SQLParserResult.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index 601748b..a5dc96d 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -4,17 +4,29 @@
 
 namespace hsql {
 
-SQLParserResult::SQLParserResult() : isValid_(false), errorMsg_(nullptr) {}
+SQLParserResult::SQLParserResult() : isValid_(false), errorMsg_(nullptr), errorLine_(-1), errorColumn_(-1) {}
 
-SQLParserResult::SQLParserResult(SQLStatement* stmt) : isValid_(false), errorMsg_(nullptr) { addStatement(stmt); }
+SQLParserResult::SQLParserResult(SQLStatement* stmt) : SQLParserResult() { addStatement(stmt); }
 
 // Move constructor.
-SQLParserResult::SQLParserResult(SQLParserResult&& moved) { *this = std::forward<SQLParserResult>(moved); }
+SQLParserResult::SQLParserResult(SQLParserResult&& moved) : SQLParserResult() {
+  *this = std::forward<SQLParserResult>(moved);
+}
 
 SQLParserResult& SQLParserResult::operator=(SQLParserResult&& moved) {
+  if (this == &moved) {
+    return *this;
+  }
+
+  // Delete everything this result has held so far.
+  reset();
+
   isValid_ = moved.isValid_;
   errorMsg_ = moved.errorMsg_;
+  errorLine_ = moved.errorLine_;
+  errorColumn_ = moved.errorColumn_;
   statements_ = std::move(moved.statements_);
+  parameters_ = std::move(moved.parameters_);
 
   moved.errorMsg_ = nullptr;
   moved.reset();
@@ -54,6 +66,8 @@ std::vector<SQLStatement*> SQLParserResult::releaseStatements() {
   std::vector<SQLStatement*> copy = statements_;
 
   statements_.clear();
+  // The parameters belong to the released statements.
+  parameters_.clear();
 
   return copy;
 }
@@ -63,6 +77,7 @@ void SQLParserResult::reset() {
     delete statement;
   }
   statements_.clear();
+  parameters_.clear();
 
   isValid_ = false;
 
-- 
2.43.0


From 153cd0c3c0a834fe6fcb3641c016a13001b5b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 09/14] fix: rejected queries add nothing to the result,
 lengths of statements always include the semicolon

By default, bison reduces without looking at the next token where it can, e.g., the whole input after a semicolon
that is followed by something invalid, or SHOW TABLES before its semicolon.
---
 src/parser/bison_parser.cpp | 6558 ++++++++++++++++++++++++++++-------
 src/parser/bison_parser.h   |    2 +-
 src/parser/bison_parser.y   |    5 +
 3 files changed, 5313 insertions(+), 1252 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 6db8ff4..131d5ac 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -799,7 +799,7 @@ union yyalloc
 /* YYFINAL -- State number of the termination state.  */
 #define YYFINAL  69
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   856
+#define YYLAST   21132
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  200
@@ -875,42 +875,42 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   346,   346,   365,   371,   378,   382,   386,   387,   388,
-     390,   391,   392,   393,   394,   395,   396,   397,   398,   399,
-     405,   406,   408,   412,   417,   421,   431,   432,   433,   435,
-     435,   441,   447,   449,   453,   465,   471,   488,   503,   505,
-     506,   507,   509,   523,   527,   537,   541,   565,   573,   586,
-     593,   608,   628,   629,   634,   645,   660,   668,   675,   683,
-     692,   693,   695,   699,   704,   705,   707,   720,   721,   722,
-     723,   724,   725,   726,   730,   731,   732,   733,   734,   735,
-     736,   737,   738,   739,   740,   742,   743,   745,   746,   747,
-     749,   750,   752,   756,   760,   765,   773,   774,   775,   776,
-     778,   779,   780,   782,   790,   796,   802,   808,   814,   815,
-     822,   828,   830,   840,   847,   858,   865,   873,   874,   881,
-     888,   892,   897,   907,   911,   915,   927,   927,   929,   930,
-     939,   940,   942,   956,   968,   973,   977,   981,   986,   987,
-     989,   999,  1000,  1002,  1004,  1005,  1007,  1009,  1010,  1012,
-    1017,  1019,  1020,  1022,  1023,  1025,  1029,  1034,  1036,  1037,
-    1038,  1040,  1041,  1063,  1064,  1066,  1067,  1068,  1069,  1070,
-    1071,  1076,  1080,  1086,  1087,  1089,  1093,  1098,  1098,  1102,
-    1110,  1111,  1113,  1122,  1122,  1122,  1122,  1122,  1124,  1125,
-    1125,  1125,  1125,  1125,  1125,  1125,  1125,  1126,  1126,  1130,
-    1130,  1132,  1133,  1134,  1135,  1136,  1138,  1138,  1139,  1140,
-    1141,  1142,  1143,  1144,  1145,  1146,  1147,  1149,  1150,  1152,
-    1153,  1154,  1155,  1159,  1160,  1161,  1162,  1164,  1165,  1167,
-    1168,  1170,  1171,  1172,  1173,  1174,  1175,  1176,  1180,  1181,
-    1182,  1183,  1187,  1188,  1190,  1191,  1196,  1197,  1198,  1202,
-    1203,  1204,  1206,  1207,  1208,  1209,  1210,  1212,  1214,  1216,
-    1217,  1218,  1219,  1220,  1221,  1223,  1224,  1225,  1226,  1227,
-    1228,  1230,  1230,  1232,  1234,  1239,  1241,  1242,  1243,  1244,
-    1246,  1246,  1246,  1246,  1246,  1246,  1246,  1248,  1250,  1251,
-    1253,  1254,  1256,  1258,  1260,  1271,  1272,  1283,  1315,  1324,
-    1324,  1331,  1331,  1333,  1333,  1340,  1344,  1349,  1357,  1363,
-    1367,  1372,  1373,  1375,  1375,  1377,  1377,  1379,  1380,  1382,
-    1382,  1388,  1389,  1391,  1395,  1400,  1406,  1413,  1414,  1415,
-    1416,  1418,  1419,  1420,  1426,  1426,  1428,  1430,  1434,  1439,
-    1449,  1456,  1464,  1473,  1474,  1475,  1476,  1477,  1478,  1479,
-    1480,  1481,  1482,  1484,  1490,  1490,  1493,  1497
+       0,   351,   351,   370,   376,   383,   387,   391,   392,   393,
+     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
+     410,   411,   413,   417,   422,   426,   436,   437,   438,   440,
+     440,   446,   452,   454,   458,   470,   476,   493,   508,   510,
+     511,   512,   514,   528,   532,   542,   546,   570,   578,   591,
+     598,   613,   633,   634,   639,   650,   665,   673,   680,   688,
+     697,   698,   700,   704,   709,   710,   712,   725,   726,   727,
+     728,   729,   730,   731,   735,   736,   737,   738,   739,   740,
+     741,   742,   743,   744,   745,   747,   748,   750,   751,   752,
+     754,   755,   757,   761,   765,   770,   778,   779,   780,   781,
+     783,   784,   785,   787,   795,   801,   807,   813,   819,   820,
+     827,   833,   835,   845,   852,   863,   870,   878,   879,   886,
+     893,   897,   902,   912,   916,   920,   932,   932,   934,   935,
+     944,   945,   947,   961,   973,   978,   982,   986,   991,   992,
+     994,  1004,  1005,  1007,  1009,  1010,  1012,  1014,  1015,  1017,
+    1022,  1024,  1025,  1027,  1028,  1030,  1034,  1039,  1041,  1042,
+    1043,  1045,  1046,  1068,  1069,  1071,  1072,  1073,  1074,  1075,
+    1076,  1081,  1085,  1091,  1092,  1094,  1098,  1103,  1103,  1107,
+    1115,  1116,  1118,  1127,  1127,  1127,  1127,  1127,  1129,  1130,
+    1130,  1130,  1130,  1130,  1130,  1130,  1130,  1131,  1131,  1135,
+    1135,  1137,  1138,  1139,  1140,  1141,  1143,  1143,  1144,  1145,
+    1146,  1147,  1148,  1149,  1150,  1151,  1152,  1154,  1155,  1157,
+    1158,  1159,  1160,  1164,  1165,  1166,  1167,  1169,  1170,  1172,
+    1173,  1175,  1176,  1177,  1178,  1179,  1180,  1181,  1185,  1186,
+    1187,  1188,  1192,  1193,  1195,  1196,  1201,  1202,  1203,  1207,
+    1208,  1209,  1211,  1212,  1213,  1214,  1215,  1217,  1219,  1221,
+    1222,  1223,  1224,  1225,  1226,  1228,  1229,  1230,  1231,  1232,
+    1233,  1235,  1235,  1237,  1239,  1244,  1246,  1247,  1248,  1249,
+    1251,  1251,  1251,  1251,  1251,  1251,  1251,  1253,  1255,  1256,
+    1258,  1259,  1261,  1263,  1265,  1276,  1277,  1288,  1320,  1329,
+    1329,  1336,  1336,  1338,  1338,  1345,  1349,  1354,  1362,  1368,
+    1372,  1377,  1378,  1380,  1380,  1382,  1382,  1384,  1385,  1387,
+    1387,  1393,  1394,  1396,  1400,  1405,  1411,  1418,  1419,  1420,
+    1421,  1423,  1424,  1425,  1431,  1431,  1433,  1435,  1439,  1444,
+    1454,  1461,  1469,  1478,  1479,  1480,  1481,  1482,  1483,  1484,
+    1485,  1486,  1487,  1489,  1495,  1495,  1498,  1502
 };
 #endif
 
@@ -1000,178 +1000,178 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-508)
+#define YYPACT_NINF (-501)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF (-355)
+#define YYTABLE_NINF (-358)
 
 #define yytable_value_is_error(Yyn) \
-  ((Yyn) == YYTABLE_NINF)
+  0
 
 /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     635,    65,   103,   113,   117,   103,   168,   122,   130,    55,
-     103,   146,    14,   195,    36,   287,   114,   114,   114,   305,
-     110,  -508,   219,  -508,   219,  -508,  -508,  -508,  -508,  -508,
-    -508,  -508,  -508,  -508,  -508,  -508,  -508,   -11,  -508,   336,
-     161,  -508,   153,   285,  -508,   263,   263,   263,   103,   402,
-     103,   291,  -508,   281,   -11,   277,   128,   281,   281,   281,
-     103,  -508,   308,   214,  -508,  -508,  -508,  -508,  -508,  -508,
-     538,  -508,   328,  -508,  -508,   306,   250,  -508,   243,  -508,
-     436,    59,   437,   322,   465,   103,   103,   365,  -508,   381,
-     282,   487,   450,   103,   309,   310,   499,   499,   499,   510,
-     103,   103,  -508,   324,   287,  -508,   326,   515,   511,  -508,
-    -508,  -508,   -11,   407,   399,   -11,   215,  -508,  -508,  -508,
-     466,   332,   523,  -508,   524,  -508,  -508,    39,  -508,   335,
-     333,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,
-    -508,  -508,  -508,  -508,   486,  -508,   404,   -17,   282,   330,
-    -508,   499,   531,   298,   361,   -33,  -508,  -508,   446,  -508,
-    -508,  -508,   -24,   -24,   -24,  -508,  -508,  -508,  -508,  -508,
-     536,  -508,  -508,  -508,   330,   464,  -508,  -508,   250,  -508,
-    -508,   330,   464,   330,   151,   422,  -508,  -508,  -508,  -508,
-    -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,
-    -508,    81,  -508,   369,  -508,  -508,  -508,    59,  -508,   103,
-     539,   430,    32,   419,   -15,   353,   357,   360,   237,   398,
-     364,   467,  -508,   307,    -7,   445,  -508,  -508,  -508,  -508,
-    -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,  -508,
-    -508,  -508,   459,  -508,    52,   367,  -508,   330,   487,  -508,
-     519,  -508,  -508,   368,    54,  -508,   365,  -508,   370,   211,
-    -508,   469,   371,  -508,    50,   215,   -11,   372,  -508,   210,
-     215,    -7,   504,    -6,    56,  -508,   422,  -508,   442,  -508,
-    -508,   374,   479,  -508,   648,   382,   405,   408,   218,  -508,
-    -508,  -508,   430,    10,    27,   525,   369,   330,   330,   -37,
-     228,   392,   467,   584,   330,   193,   394,   119,   330,   330,
-     467,  -508,   467,   -35,   393,   177,   467,   467,   467,   467,
-     467,   467,   467,   467,   467,   467,   467,   467,   467,   467,
-     467,   515,   103,  -508,   590,    59,    -7,  -508,   281,    54,
-     591,   592,   402,   594,   224,  -508,  -508,    59,  -508,   536,
-      21,   365,  -508,   330,  -508,   596,  -508,  -508,  -508,  -508,
-     330,  -508,  -508,   598,   422,   330,   330,  -508,   444,  -508,
-     433,    37,  -508,   648,   531,   499,  -508,  -508,   432,  -508,
-     447,  -508,  -508,   449,  -508,  -508,   452,  -508,  -508,  -508,
-    -508,   453,  -508,  -508,   200,   531,   454,   455,  -508,    32,
-    -508,   559,   330,   458,  -508,   460,   545,   227,   183,   256,
-     330,   330,  -508,   525,   543,   173,  -508,  -508,  -508,   540,
-     628,   649,   467,   470,   307,  -508,   554,   448,   649,   649,
-     649,   649,   664,   664,   664,   664,   193,   193,    84,    84,
-      84,   -80,   472,  -508,  -508,   231,   657,   240,  -508,  -508,
-    -508,  -508,  -508,    64,   242,  -508,   430,  -508,     2,  -508,
-     471,  -508,    51,  -508,   599,  -508,  -508,  -508,   660,  -508,
-    -508,    -7,    -7,   605,  -508,   531,  -508,   514,  -508,   475,
-     252,  -508,   665,   678,  -508,   680,   683,   684,  -508,  -508,
-     588,  -508,   526,   103,  -508,   200,  -508,  -508,   254,   531,
-     531,  -508,   502,  -508,   258,    28,  -508,   330,   648,   330,
-     330,  -508,   268,   235,   506,  -508,   467,   649,   307,   507,
-     265,  -508,  -508,  -508,  -508,  -508,   695,   402,  -508,  -508,
-     509,   607,  -508,  -508,  -508,   629,   630,   631,   611,    21,
-     708,  -508,  -508,  -508,   586,  -508,  -508,  -508,    71,  -508,
-    -508,  -508,   520,   266,   522,   528,   529,  -508,  -508,   282,
-    -508,  -508,  -508,   280,   289,   609,   559,   559,   330,   121,
-     530,    -7,   275,  -508,   330,  -508,   584,   532,   290,  -508,
-    -508,  -508,  -508,    51,    21,  -508,  -508,  -508,    21,    93,
-     534,   330,  -508,  -508,  -508,   713,  -508,  -508,  -508,  -508,
-    -508,   557,   606,   464,  -508,  -508,   294,  -508,  -508,  -508,
-      -7,  -508,  -508,  -508,  -508,   178,   531,   -12,   544,  -508,
-     330,   234,   559,   537,   330,   300,   330,  -508,  -508,   371,
-    -508,  -508,  -508,   546,    26,  -508,   531,    -7,  -508,  -508,
-      -7,  -508,  -105,    19,   288,  -508,  -508,   302,  -508,  -508,
-     617,  -508,  -508,  -508,    19,  -508
+   20938,    15,    58,    62,    84,    58,    -1,   -31,   -27,   -13,
+      58,    46,    21,   535,     2,   284,   111,   111,   111,   325,
+      44,    53,    40,    51,    40,   297,    56,    70,    81,   572,
+     584,   596,   782,   783,   786,   787,   805,   124,   435,   436,
+   18521,   851,   211,   302,    94,   471,    65,    65,    58,   479,
+      58,   363,   382,   306,   124,   201,   -20,   306,   306,   306,
+      58,   106,   402,   237,   303,   863,   902,   906,   909,  -501,
+   20876,   545,   458,   109,   115, 20262,   107,    64,   982,   962,
+     578,  1546,   563,   468,    42,    58,    58,   393,   678,   498,
+     210,   636,   601,    58,   460,   469,   649,   649,   649,   665,
+      58,    58,   120,   520,   284,   144,   541,   725, 20484,   345,
+     670,   685,   124,   810,   620,   124,   593, 18629,  1339,  1530,
+     371,   570,   770,  1721,   802,  1912,  2103,    54,  2294,   602,
+     192,   226,   739,   724,  2485,  2676,  2867,  3058,  3249,  3440,
+    3631,  3822,   965,   974,   719,   679,   684,   564,   -97, 20638,
+     989,   649,   835,   383,   669,    82,   117,   837,   765, 16153,
+   16451,   331,   428,   438,   428,  1013,  1043,  1076,   376,   494,
+     843, 20283, 20502, 20662, 20638,    47,   523,   594,  1173,   609,
+     619, 20638,   708, 20638, 19386,    50,  4013,  4204,  4395,  4586,
+    4777,  4968,  5159,  5350,  5541,  5732,  5923,  6114,  6305,  6496,
+    6687,  1394,  6878,   562,   861,   924,  1091,  1549,   228,    58,
+     877,   409,   167,   758,   753,   693,   704,   710, 19602, 20715,
+     729, 20775,  7069, 20512, 16966,  7260,  7451,  7642,  7833, 16958,
+   17088,  8024, 17218,  8215,  8406,  8597,  8788,  8979,  9170, 17348,
+    9361,  9552,   813,   186,   956,   750,  1092, 20638,   636,  1093,
+     914,  1104,  1107,   769,   793,   156,    35,   171,  1052,   972,
+    1001, 20118, 20083, 19849, 18876,   537,   124,   413,   423,   194,
+     593,    77,   913,   775,   550,   524,    86,   597,   842,  9743,
+    1113,   811,   894,  1153,  2025,   818,   836,   844,  1114,  1151,
+    1168,  1176,   409, 20390,    23,   959,  1424, 20638, 20638,   950,
+     883,   831, 20775,  9934, 20638, 10125,   845,   -94, 20638, 20638,
+   20775, 10316, 20775,   472,   847,   -29, 20775, 20775, 20775, 20775,
+   20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775, 20775,
+   20775,   725,    58,  1570,  1047,  1549,   332,   172,   306,   793,
+    1051,  1053,   479,  1063,  1187,  1191,   185,  1549,   189,   843,
+      49, 20160, 20180, 20638,   157,  1071, 19924, 19981,   660,   901,
+   20638,   203,   214,  1181,    50, 20638, 20638,   841,   918,  1072,
+     925,  1157,   623,  2025,   835,   649,  1419,  1610,   911,  1757,
+    1388,  1770,  1801,   915,  1948,  1957,   930,  2019,  2038,  2056,
+    2139,  1564,  2183,  2210,  2229,   835,   931,   938,  1164,   167,
+    1172,   952, 20638,  1143, 10507,   923,  1026,   761,   -43,  1056,
+   20638, 20638, 10698,   959,  1035,   408, 10889, 11080, 17478, 17608,
+    2140, 16064, 20775,   993, 20512, 11271,  1088, 11462, 16213, 16362,
+   16511, 16660, 15440, 15596, 15752, 15908, 11653, 11844, 12035, 12226,
+   12417, 12608,  1008,   198,   260,  1193,  1204,  1197,  1221,  1229,
+    1230,  1237,    93,  1109,  1252,  1271,   409, 20245, 19761, 18977,
+     977, 19052, 18735, 19113, 15542, 20021, 20029,   604,  1205,   614,
+     715,   343,   981,  1141,  1165,   835,   814,  1067,   926,  1016,
+    1286,  1180,  1210,  1217,  2247,  1223,  1233,  1245,  2270,  2328,
+    1137,  2330,  1085,    58,  1288,  2340,  2346,  2401,  1295,   835,
+     835,  1301,  1064, 12799,  1309, 20416, 17738, 20638,  2025, 20638,
+   20638, 12990,   878,   707,  1068, 13181, 20775, 16809, 20512,  1070,
+    1310, 13372, 13563,  1183,  1190,    95,  1277,   479,  1315,  1340,
+    1087,  1192,  1198,  1199,  1203,   -21,   321,   552,  1211,    49,
+    1296, 19188, 19268, 19329,  1208,  1560,   795,  1283,   385,   966,
+    1373,  1200,  1160,  1375,  1162,  1169,  1177,  2438,  2461,  1583,
+    2519,  2521,  1379,  1381,  1392,  1325,   952,   952, 20638,   -36,
+    1178,  1235,  1116, 13754, 20638, 17868, 15249,  1186,  1400, 17998,
+   18128,  1405,  1409, 18735,    49,  1260,  1305,  1307,    49, 19836,
+   18868, 20638,   998,  2531,  2537,  1406,  2592,  2629,  2652,  2710,
+    1421,  1241,  1300,  1282, 13945, 14136,  1423, 14327, 14518, 14709,
+    1291, 18258, 18388, 19404, 19484,  1854,   835,   103,  1242,  1428,
+   20638,   697,   952,  1249, 20638,  1440, 20638,  1751,  2712,  1299,
+     174,   755,   820,  1254,  1149, 14900,   835, 18774, 19545, 19620,
+   15301, 15091,   240,   181,   506,   -87,  1258,  1459,   235,   256,
+    1320,   278,   286, 19700,   181,  1259
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
    Performed when YYTABLE does not specify something else to do.  Zero
    means the default is an error.  */
-static const yytype_int16 yydefact[] =
+static const yytype_int8 yydefact[] =
 {
-     335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,    30,    30,    30,     0,
-     355,     3,    21,    19,    21,    18,     8,     9,     7,    11,
-      16,    17,    13,    14,    12,    15,    10,     0,   334,     0,
-     309,   114,    33,     0,    54,    61,    61,    61,     0,     0,
-       0,     0,   308,   109,     0,     0,     0,   109,   109,   109,
-       0,    52,     0,   336,   337,    29,    26,    28,    27,     1,
-     335,     2,     0,     6,     5,   164,   123,   124,   154,   106,
-       0,   174,     0,     0,   312,     0,     0,   148,    37,     0,
-     118,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,    53,     0,     0,     4,     0,     0,   142,   136,
-     137,   135,     0,   139,     0,     0,   170,   310,   287,   290,
-     292,     0,     0,   293,     0,   288,   289,     0,   298,     0,
-     173,   175,   177,   179,   280,   281,   282,   291,   283,   284,
-     285,   286,    32,    31,     0,   311,     0,     0,   118,     0,
-     113,     0,     0,     0,     0,   148,   120,   108,     0,   131,
-     130,    38,    41,    41,    41,   107,   104,   105,   339,   338,
-       0,   292,   163,   141,     0,   154,   127,   126,   128,   138,
-     134,     0,   154,     0,     0,   322,   259,   260,   261,   262,
-     263,   264,   265,   266,   267,   268,   269,   270,   271,   272,
-     295,     0,   294,   297,   180,   181,    34,     0,    60,     0,
-       0,   335,     0,     0,   276,     0,     0,     0,     0,     0,
-       0,     0,   278,     0,   147,   183,   190,   191,   192,   185,
-     187,   193,   186,   206,   194,   195,   196,   197,   189,   184,
-     199,   200,     0,   356,     0,     0,   116,     0,     0,   119,
-       0,   110,   111,     0,     0,    51,   148,    50,    24,     0,
-      22,   145,   143,   171,   320,   170,     0,   153,   155,   160,
-     170,   166,   168,   165,     0,   132,   321,   323,     0,   296,
-     176,     0,     0,    57,     0,     0,     0,     0,     0,    62,
-      64,    65,   335,   142,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   202,     0,   201,     0,     0,     0,     0,
-       0,   203,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   117,     0,     0,   122,   121,   109,     0,
-       0,     0,     0,     0,     0,    47,    36,     0,    20,     0,
-       0,   148,   144,     0,   318,     0,   319,   182,   125,   129,
-       0,   159,   158,   161,   322,     0,     0,   327,     0,   329,
-       0,   333,   324,     0,     0,     0,    83,    77,     0,    79,
-      89,    80,    67,     0,    74,    75,     0,    71,    72,    78,
-      81,    86,    76,    68,    91,     0,     0,     0,    56,     0,
-      59,   243,     0,   277,   279,     0,     0,     0,     0,     0,
-       0,     0,   225,     0,     0,     0,   198,   188,   217,   218,
-       0,   213,     0,     0,     0,   204,     0,   216,   215,   231,
-     232,   233,   234,   235,   236,   237,   208,   207,   210,   209,
-     211,   212,     0,    35,   357,     0,     0,     0,    48,    45,
-      43,    49,    40,     0,     0,    23,   335,   146,   299,   301,
-       0,   303,   316,   302,   150,   172,   317,   156,     0,   157,
-     133,   169,   167,     0,   330,     0,   332,     0,   325,     0,
-       0,    55,     0,     0,    73,     0,     0,     0,    82,    98,
-       0,    97,     0,     0,    66,    90,    92,    94,     0,     0,
-       0,    63,     0,   238,     0,   142,   229,     0,     0,     0,
-       0,   223,     0,     0,     0,   273,     0,   214,     0,     0,
-       0,   205,   274,   115,   112,    39,     0,     0,    46,    25,
-       0,     0,   351,   343,   349,   347,   350,   345,     0,     0,
-       0,   315,   307,   313,     0,   140,   162,   328,   333,   331,
-     178,    58,     0,     0,     0,     0,     0,    99,    96,   118,
-      93,    95,   101,     0,     0,   245,   243,   243,     0,     0,
-       0,   227,     0,   226,     0,   230,   275,     0,     0,   221,
-     219,    44,    42,   316,     0,   346,   348,   344,     0,   300,
-     317,     0,   326,    70,    88,     0,    84,    69,    85,   103,
-     100,     0,     0,   154,   239,   240,     0,   257,   258,   224,
-     228,   222,   220,   304,   340,   352,     0,   152,     0,   102,
-       0,   248,   243,     0,     0,     0,     0,   149,    87,   244,
-     249,   250,   251,     0,     0,   241,     0,   353,   341,   314,
-     151,   242,     0,     0,     0,   256,   246,     0,   255,   253,
-       0,   254,   252,   342,     0,   247
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     1,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
-    -508,  -508,  -508,   668,  -508,   711,  -508,   391,  -508,   403,
-    -508,  -508,  -508,  -508,  -321,   -79,   154,   406,   293,  -508,
-    -508,  -508,   420,  -508,   344,  -508,  -335,  -508,  -508,  -508,
-    -508,   257,  -508,  -453,  -508,   -45,  -508,  -508,  -508,  -508,
-    -508,  -508,  -142,  -508,  -508,   505,  -202,   -88,  -508,    57,
-     -49,   -26,  -508,  -508,   -86,  -278,  -508,  -508,  -508,  -139,
-    -508,  -508,  -171,  -508,   387,  -508,  -508,  -508,   129,  -297,
-    -508,  -265,   547,   574,   424,  -147,  -188,  -508,  -508,  -508,
-    -508,  -508,  -508,   456,  -508,  -508,  -508,  -507,  -508,  -508,
-    -508,  -346,  -508,  -508,  -152,  -508,  -508,  -508,  -508,  -508,
-    -508,   -58,  -508,  -508,   652,  -106,  -508,  -508,   653,  -508,
-    -508,  -465,   197,  -508,  -508,  -508,    -2,  -508,  -508,   199,
-     533,  -508,   423,  -508,   508,  -508,   241,  -508,  -508,  -508,
-     679,  -508,  -508,  -508,  -508,  -354
+    -501,  -501,  -501,  1389,  -501,  1441,  -501,  1123,  -501,   330,
+    -501,  -501,  -501,  -501,  -326,   -79,   532,  1134,  1021,  -501,
+    -501,  -501,   683,  -501,  1080,  -501,  -341,  -501,  -501,  -501,
+    -501,   990,  -501,  -446,  -501,   -45,  -501,  -501,  -501,  -501,
+    -501,  -501,  -142,  -501,  -501,  1243,  -202,   -98,  -501,   821,
+     -49,   -53,  -501,  -501,   -85,  -278,  -501,  -501,  -501,   180,
+    -501,  -501,  -171,  -501,  1135,  -501,  -501,  -501,   354,  -297,
+    -501,  -292,  1293,  1311,  1158,  -147,  -188,  -501,  -501,  -501,
+    -501,  -501,  -501,  1207,  -501,  -501,  -501,    60,  -501,  -501,
+    -501,  -314,  -501,  -501,  -149,  -501,  -501,  -501,  -501,  -501,
+    -501,   -58,  -501,  -501,  1414,  -106,  -501,  -501,  1415,  -501,
+    -501,  -500,   935,  -501,  -501,  -501,    -2,  -501,  -501,   960,
+    1284,  -501,  1185,  -501,  1302,  -501,  1011,  -501,  -501,  -501,
+    1468,  -501,  -501,  -501,  -501,  -354
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
@@ -1199,181 +1199,4237 @@ static const yytype_int16 yydefgoto[] =
 static const yytype_int16 yytable[] =
 {
       41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
-      56,   270,    99,   100,   101,   402,   249,    40,   163,   164,
-     480,   450,   173,   133,    40,   642,   178,   182,   531,   178,
-     403,   303,   642,   305,   269,   284,   271,   273,   479,   626,
-     173,   498,   561,   643,   119,   120,    87,    75,    90,   366,
-     149,   279,   115,   354,   354,    60,   316,   340,   102,   604,
-     605,   648,   649,   118,   119,   120,   422,   340,   532,    55,
-     445,   299,   242,   533,   589,   298,   307,   210,   341,   308,
-     534,   535,   454,   147,   148,   118,   119,   120,   526,   253,
-     400,   158,    39,   423,    76,   309,    61,   536,   166,   167,
-     336,  -352,   537,   342,   246,   504,    40,   121,   211,   308,
-     308,    94,   331,   527,   303,   635,    42,   346,   367,   531,
-      43,   548,   420,   615,   421,   309,   309,   520,   427,   428,
+      56,   270,    99,   100,   101,   402,   450,   182,   163,   164,
+     480,    60,   308,   133,    40,   115,   403,   178,  -118,  -256,
+     178,   303,   479,   305,   269,  -148,   271,   273,   309,   589,
+     -21,   498,    39,   445,  -355,   145,    87,  -154,    90,   561,
+    -322,   -19,    40,    -3,   279,   454,    -8,   585,   102,   119,
+     120,    40,    61,    48,  -124,    42,   509,    49,   -61,    45,
+      -9,   299,   242,   308,    97,   425,   307,  -166,  -347,    46,
+     308,    -7,  -148,   147,   148,    50,  -321,    43,   615,   309,
+     400,   158,   426,   -40,   -54,   -39,   309,   152,   166,   167,
+     336,   417,  -154,  -152,   246,   504,   -52,  -123,  -256,    -6,
+      47,   -30,  -152,    98,   303,    -5,   109,  -120,   149,  -154,
+     -53,   548,   420,   114,   421,   266,    53,   520,   427,   428,
      429,   430,   431,   432,   433,   434,   435,   436,   437,   438,
-     439,   440,   441,   133,   406,   563,   564,   122,   619,   133,
-     407,   408,   266,    50,   214,   118,   119,   120,   343,   532,
-     168,   418,   419,   123,   533,   248,   308,   475,   343,   122,
-     254,   534,   535,   570,   306,   355,   540,   212,   359,   293,
-     178,   294,   309,    54,   644,   123,   353,   645,   536,   124,
-     368,   644,  -352,   537,   645,   476,   477,   215,   216,   217,
-    -305,   285,   286,   287,   531,   401,   582,   281,    54,   124,
-     125,   126,   464,   269,   404,   456,    48,   369,   471,   472,
-     316,   578,    97,   567,    49,   442,    53,   568,   370,   476,
-     477,   124,   125,   126,   517,   308,   218,   308,    45,   122,
-     214,   118,   119,   120,   532,   127,   405,   333,    46,   533,
-     334,   309,   109,   309,   530,   123,   534,   535,   128,   109,
-     623,    98,   625,   512,   513,    57,   272,   127,    65,   334,
-     183,   606,   219,   536,   330,    58,   331,   133,   537,    47,
-     128,   425,   647,   215,   216,   217,   220,   184,   110,   133,
-      62,  -306,   509,   446,   617,   110,   481,   650,   426,   308,
-     361,   124,   125,   126,   489,    69,    59,    70,   655,   624,
-     214,   118,   119,   120,   417,   309,   607,   256,   257,   114,
-     410,   490,   218,   629,   111,   122,   308,   362,   576,   316,
-     443,   111,    72,   214,   118,   119,   120,   221,   222,    79,
-     411,   123,   309,   308,   574,   223,   412,    81,   510,   298,
-     128,   308,   508,   215,   216,   217,    75,    80,   219,   309,
-     569,   245,   571,   572,   514,    75,   515,   309,   411,   491,
-     492,   353,   220,   493,   511,   519,   215,   216,   217,    82,
-     327,   328,   329,   330,   308,   331,   573,   124,   125,   126,
-      83,   308,   218,   609,   358,   122,   630,   631,   632,   364,
-     309,   214,   118,   119,   120,    88,   348,   309,    92,   349,
-      96,   123,   104,   398,    91,   218,   399,   599,   122,   452,
-      67,    68,   453,   221,   222,   106,   523,   610,   219,   207,
-     107,   223,   621,   103,   123,   525,   128,   529,   453,   117,
-     207,   142,   220,   144,   301,   216,   217,   551,   149,   562,
-     334,   219,   334,   566,   651,   652,   353,   124,   125,   126,
-     580,   594,   310,   353,   595,   220,    85,    86,   145,   577,
-     214,   118,   119,   120,   151,   600,   152,   637,   334,   640,
-     124,   125,   126,   218,   601,   612,   122,   334,   353,   622,
-     154,   559,   353,   221,   222,   639,   157,   653,   334,   311,
-     334,   223,   123,   161,   159,   160,   128,   186,   187,   188,
-     189,   190,   191,   165,   216,   217,   221,   222,    54,   302,
-     170,   171,   179,   173,   223,   181,   201,   202,   203,   128,
-     206,   207,   208,   220,   243,   209,   247,   250,  -354,   258,
-     114,   274,   282,    15,   292,     1,   312,   295,   124,   125,
-     126,   296,   218,     2,   297,   122,   304,   332,   338,   365,
-       3,   335,   339,   350,   347,     4,   313,   373,   374,   353,
-     360,   123,   375,   314,   315,     5,   395,   396,     6,     7,
-     397,   316,   317,    75,   221,   222,   413,   424,   302,   416,
-       8,     9,   223,   444,   474,   448,   449,   128,   451,   466,
-      10,   468,   220,    11,   186,   187,   188,   189,   190,   191,
-     192,   193,   194,   195,   196,   197,   473,   124,   125,   126,
-     318,   319,   320,   321,   322,    12,   482,   323,   324,    13,
-     325,   326,   327,   328,   329,   330,   502,   331,   311,   507,
-     331,   483,     1,   485,   422,    14,   486,   487,   499,   500,
-       2,    15,   505,   221,   222,   506,   308,     3,   521,   376,
-     524,   223,     4,   546,   518,   522,   128,   547,   544,   539,
-     550,   552,     5,   377,   549,     6,     7,   378,   379,   380,
-     381,   382,   311,   383,   553,   312,   554,     8,     9,   555,
-     556,   384,   557,    16,    17,    18,   565,    10,   558,   581,
-      11,   575,   579,   311,   583,   414,   584,   585,   586,   587,
-     588,   590,   591,   315,   602,   593,   385,   596,   311,   618,
-     316,   317,    12,   597,   598,   608,    13,   611,   616,   312,
-     493,   636,   620,   654,   386,    74,   387,   388,   105,   628,
-     455,   641,    14,   501,   516,   447,   528,   467,    15,   414,
-    -355,   389,   560,   337,   280,   409,   390,   315,   391,   318,
-     319,   320,   321,   322,   316,   317,   323,   324,   392,   325,
-     326,   327,   328,   329,   330,   278,   331,   465,   315,   204,
-     205,   614,   613,   169,   372,   316,  -355,   470,     0,   592,
-      16,    17,    18,   315,     0,     0,     0,   356,     0,     0,
-     316,   393,     0,   318,   319,   320,   321,   322,     0,     0,
-     323,   324,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,     0,     0,     0,  -355,  -355,  -355,   321,   322,     0,
+     439,   440,   441,   133,    -4,   563,   564,   406,  -152,   133,
+     407,   408,   110,    72,   626,   619,   -51,  -318,  -152,   607,
+    -154,   418,   419,  -322,   -19,   149,  -318,   570,   359,   274,
+     284,   -50,  -121,  -312,   306,  -152,   -40,  -124,   -39,  -152,
+    -249,   178,    75,  -318,  -152,   -36,  -356,   642,   111,   -20,
+    -166,  -249,    83,   308,  -160,  -148,  -166,  -160,   -35,  -321,
+    -120,   582,  -318,  -159,   124,   274,  -159,   281,  -318,   309,
+     404,   -33,  -318,   269,  -158,    54,  -152,  -158,   471,   472,
+    -123,   578,  -152,  -318,   -30,   442,  -318,   568,  -318,  -318,
+    -120,   -60,  -148,  -318,   517,  -318,  -318,   -21,  -318,  -318,
+    -318,    70,  -154,   456,  -154,  -322,   405,  -322,   -19,  -160,
+      -3,  -318,  -318,    -8,   530,  -121,  -318,  -318,  -159,  -124,
+    -357,  -124,   625,   512,   513,    65,  -160,    -9,  -118,  -158,
+    -318,   606,  -166,  -118,  -166,  -159,  -318,   133,    -7,  -148,
+     248,  -321,   647,  -321,   361,  -121,  -158,    62,  -318,   133,
+     -40,   -54,   -39,   446,   617,  -336,   481,   -18,  -152,  -356,
+    -152,   353,  -123,   -52,  -123,  -356,    -6,  -160,   -30,  -109,
+     308,   362,    -5,  -160,  -120,  -120,  -159,   -53,    54,  -318,
+    -318,  -318,  -159,   629,   -33,    69,   309,  -158,   576,   650,
+     443,   -38,  -122,  -158,    96,   249,   285,   286,   287,  -249,
+     655,    -4,  -249,  -169,  -356,  -356,   644,    67,    68,   645,
+    -318,  -255,  -318,   -51,  -318,  -318,  -160,  -160,  -160,   -60,
+     569,  -337,   571,   572,   514,  -159,  -159,  -159,   -50,  -121,
+    -121,  -292,  -253,  -357,  -292,   519,  -158,  -158,  -158,  -357,
+    -292,  -356,   -36,  -356,  -356,  -333,   -20,  -173,  -292,  -160,
+     207,  -160,  -160,  -148,  -254,   -35,    82,  -292,  -159,   586,
+    -159,  -159,  -252,  -136,   152,    81,   648,   649,   -33,  -158,
+     -18,  -158,  -158,  -153,   -38,  -122,  -292,   599,  -357,  -357,
+    -350,  -175,  -292,  -155,  -175,  -292,  -292,   610,   -41,   -38,
+    -255,  -336,   621,    92,  -339,   104,   346,  -292,   -41,    79,
+    -292,    75,  -292,  -292,   -38,  -122,   245,  -292,   308,  -292,
+    -292,  -253,  -292,  -292,  -292,  -357,  -169,  -357,  -357,   308,
+    -136,  -292,  -169,  -292,   309,  -292,  -292,  -335,  -153,   577,
+    -292,  -292,  -292,  -254,   -61,   309,   149,   637,  -155,   640,
+    -292,  -252,    88,  -292,  -292,  -153,    91,  -292,  -292,  -292,
+    -292,   559,  -292,  -334,   -18,  -155,  -292,  -337,  -333,  -292,
+    -292,  -337,  -292,  -292,  -333,  -308,  -148,  -292,  -292,   186,
+     187,   188,   189,   190,   191,   192,   193,   194,   195,   196,
+     197,   -41,    15,  -127,  -132,   -38,  -153,   103,   -38,  -122,
+    -122,   464,  -153,  -292,  -292,  -292,  -155,  -170,  -169,  -136,
+    -169,   253,  -155,   476,   477,    -2,  -292,  -292,  -292,  -292,
+    -292,   253,  -338,  -292,  -292,   106,  -292,  -292,  -292,  -292,
+    -292,  -292,  -297,  -292,  -292,  -297,  -292,   142,  -292,  -292,
+    -339,  -297,   -11,   422,  -339,  -153,  -153,  -153,  -127,  -297,
+    -333,   117,  -333,   334,   -16,  -155,  -155,  -155,  -297,   144,
+    -148,   151,   183,  -170,  -126,  -127,   -17,  -323,    83,  -127,
+     423,   515,   -61,  -335,  -156,    57,   353,  -297,  -153,   184,
+    -153,   360,   367,  -297,  -157,    58,  -297,  -297,  -155,   358,
+    -155,  -155,   254,  -324,   364,   -41,   604,   605,  -297,  -334,
+     587,  -297,   254,  -297,  -297,   -41,  -127,  -132,  -297,   154,
+    -297,  -297,  -127,  -297,  -297,  -297,    59,   157,   183,  -126,
+    -170,  -345,  -297,   161,  -297,   159,  -297,  -297,   210,  -156,
+    -125,  -297,  -297,  -297,   160,   184,  -126,  -138,   165,  -157,
+    -126,  -297,   651,   652,  -297,  -297,  -156,  -134,  -297,  -297,
+    -297,  -297,   635,  -297,   368,   -11,  -157,  -297,  -338,   211,
+    -297,  -297,  -338,  -297,  -297,   256,   257,   -16,  -297,  -297,
+     186,   187,   188,   189,   190,   191,  -170,  -126,  -154,   -17,
+    -323,   369,  -170,  -126,    54,  -133,  -323,  -156,  -127,  -132,
+    -127,  -132,   370,  -156,  -297,  -297,  -297,  -157,  -137,    85,
+      86,   171,  -170,  -157,  -170,   170,  -324,  -297,  -297,  -297,
+    -297,  -297,  -324,  -135,  -297,  -297,   181,  -297,  -297,  -297,
+    -297,  -297,  -297,  -276,  -297,  -297,  -276,  -297,   212,  -297,
+    -297,  -250,  -276,  -154,   201,   208,  -156,  -156,  -156,   -11,
+    -276,   -37,  -250,  -125,   202,  -165,  -157,  -157,  -157,  -276,
+    -154,   -16,   -13,   -14,   114,  -137,   -12,   -15,  -170,  -126,
+    -170,  -126,  -323,   -17,  -323,  -162,   340,   206,  -276,  -156,
+    -135,  -156,  -156,  -138,  -276,   -10,   203,  -276,  -276,  -157,
+    -311,  -157,  -157,  -134,  -332,   209,   574,   341,  -324,  -276,
+    -324,  -154,  -276,   308,  -276,  -276,  -251,  -154,  -133,  -276,
+     366,  -276,  -276,    55,  -276,  -276,  -276,  -251,   243,   309,
+    -108,  -327,   342,  -276,   247,  -276,   258,  -276,  -276,  -179,
+    -162,  -114,  -276,  -276,  -276,  -125,   250,  -125,    76,   630,
+     631,   632,  -276,   -29,  -137,  -276,  -276,  -162,  -139,  -276,
+    -276,  -276,  -276,   -37,  -276,    94,   -37,   308,  -276,  -135,
+     282,  -276,  -276,   292,  -276,  -276,   508,   295,  -165,  -276,
+    -276,   308,  -248,   309,  -165,   -13,   -14,   343,   296,   -12,
+     -15,  -129,   -26,  -154,   297,  -154,   -28,   309,  -162,   -27,
+    -133,   332,  -133,  -168,  -162,  -276,  -276,  -276,   -10,  -179,
+    -250,   304,  -179,  -250,   168,   179,  -325,  -332,  -276,  -276,
+    -276,  -276,  -276,  -332,  -177,  -276,  -276,  -177,  -276,  -276,
+    -276,  -276,  -276,  -276,   335,  -276,  -276,   293,  -276,   294,
+    -276,  -276,  -243,   338,  -327,  -243,  -129,  -162,  -162,  -162,
+    -327,  -243,  -106,   339,  -114,   -32,  -331,   373,   365,  -243,
+    -165,  -327,  -165,  -129,   -31,   410,   -29,  -129,  -243,   -13,
+     -14,  -167,  -154,   -12,   -15,  -251,  -180,   375,  -251,  -113,
+    -162,   109,  -162,  -162,   308,   411,   573,  -243,  -326,  -327,
+    -327,   412,   -10,  -243,  -139,   374,  -243,  -243,   396,  -332,
+     309,  -332,   395,  -107,  -129,   -26,   397,    75,  -243,   -28,
+    -129,  -243,   -27,  -243,  -243,   413,  -168,   110,  -243,   502,
+    -243,  -243,  -168,  -243,  -243,  -243,  -327,  -154,  -327,  -325,
+     416,   424,  -243,  -104,  -243,  -325,  -243,  -243,  -114,  -181,
+     444,  -243,  -243,  -243,  -154,   448,  -180,   449,   114,  -180,
+     -29,  -243,   298,   111,  -243,  -243,   308,   451,  -243,  -243,
+    -243,  -243,  -329,  -243,   466,  -106,  -105,  -243,   -32,  -331,
+    -243,  -243,   309,  -243,  -243,  -331,   474,   -31,  -243,  -243,
+     473,   -34,  -116,  -119,  -167,  -154,  -129,   308,  -129,   -26,
+    -167,  -154,  -113,   -28,  -110,   482,   -27,  -111,  -168,   485,
+    -168,  -326,   340,   309,  -243,  -243,  -243,  -326,   506,  -181,
+     507,  -325,  -181,  -325,   486,   499,  -107,  -243,  -243,  -243,
+    -243,  -243,   500,   526,  -243,  -243,   422,  -243,  -243,  -243,
+    -243,  -243,  -243,  -277,  -243,  -243,  -277,  -243,   510,  -243,
+    -243,   333,  -277,   -57,   334,   642,  -104,  -333,   527,  -106,
+    -277,  -331,   -32,  -331,   -56,  -330,   643,   348,   411,  -277,
+     349,   -31,   -59,  -128,   511,   539,  -167,  -154,  -167,  -154,
+     -55,  -161,   109,  -115,   468,  -329,  -113,   518,  -277,  -105,
+    -112,  -329,   521,  -326,  -277,  -326,   -22,  -277,  -277,   -22,
+     -58,   522,  -329,   547,   -34,  -116,  -119,   524,   546,  -277,
+    -107,   550,  -277,   343,  -277,  -277,   552,  -110,   110,  -277,
+    -111,  -277,  -277,   553,  -277,  -277,  -277,   549,  -128,   554,
+    -329,  -329,   308,  -277,   609,  -277,  -161,  -277,  -277,   555,
+    -104,   557,  -277,  -277,  -277,  -128,   347,   -24,   309,  -128,
+     -24,   556,  -277,  -161,   111,  -277,  -277,   558,   565,  -277,
+    -277,  -277,  -277,   575,  -277,   579,   -57,  -329,  -277,  -329,
+    -333,  -277,  -277,  -105,  -277,  -277,  -333,   -56,  -330,  -277,
+    -277,   581,   583,  -328,  -330,   -59,  -128,   475,   -34,  -116,
+    -119,   584,  -128,   -55,  -161,  -330,  -115,  -351,  -343,   590,
+    -161,  -110,  -349,  -112,  -111,  -277,  -277,  -277,  -176,   398,
+     588,  -176,   399,   -58,   644,   476,   477,   645,  -277,  -277,
+    -277,  -277,  -277,  -330,  -330,  -277,  -277,  -227,  -277,  -277,
+    -277,  -277,  -277,  -277,   591,  -277,  -277,   505,  -277,  -287,
+    -277,  -277,  -287,  -161,  -161,  -161,   -62,  -227,  -287,   -62,
+     -57,   308,  -333,  -227,  -333,   593,  -287,   596,   114,  -346,
+    -330,   -56,  -330,   -64,   597,  -287,   -64,   309,  -128,   -59,
+    -128,   -65,   598,   608,   -65,  -244,  -161,   -55,  -161,  -161,
+    -115,   611,   452,  -228,  -287,   453,   -47,  -112,   523,   -47,
+    -287,   207,   525,  -287,  -287,   453,  -328,   -58,   118,   119,
+     120,  -245,  -328,  -228,  -348,  -287,  -344,   308,  -287,  -228,
+    -287,  -287,   618,  -328,   493,  -287,   -48,  -287,  -287,   -48,
+    -287,  -287,  -287,   309,   -45,   -43,   620,   -45,   -43,  -287,
+     602,  -287,   -49,  -287,  -287,   -49,   654,   628,  -287,  -287,
+    -287,  -328,  -328,   636,  -154,  -154,  -154,   529,  -287,   641,
+     207,  -287,  -287,  -246,  -247,  -287,  -287,  -287,  -287,   105,
+    -287,  -244,  -244,  -244,  -287,    74,   -23,  -287,  -287,   -23,
+    -287,  -287,   455,   447,   528,  -287,  -287,  -154,  -328,   501,
+    -328,   551,   122,   -66,   334,   560,   -66,  -245,  -245,  -245,
+     562,   337,   -89,   334,  -244,   467,   -63,   353,   123,   -63,
+     280,  -287,  -287,  -287,   566,   580,   409,   353,   353,   -89,
+     -46,   465,   278,   -46,  -287,  -287,  -287,  -287,  -287,   614,
+    -245,  -287,  -287,   -83,  -287,  -287,  -287,  -287,  -287,  -287,
+    -290,  -287,  -287,  -290,  -287,   -25,  -287,  -287,   -25,  -290,
+     -83,   204,   205,   613,   124,   125,   126,  -290,   356,   470,
+     118,   119,   120,   118,   119,   120,  -290,   -89,   -89,   592,
+    -140,   -89,   186,   187,   188,   189,   190,   191,  -178,  -140,
+     594,  -178,   169,   595,  -101,  -290,   600,  -101,   372,   334,
+     127,  -290,   483,   -89,  -290,  -290,   -89,   601,   -83,   -83,
+     334,     0,   -83,   128,   121,   612,  -290,   121,   353,  -290,
+     -44,  -290,  -290,   -44,   -42,  -140,  -290,   -42,  -290,  -290,
+       0,  -290,  -290,  -290,   -83,  -140,  -100,   -83,   622,  -100,
+    -290,   353,  -290,  -102,  -290,  -290,  -102,     0,  -117,  -290,
+    -290,  -290,  -140,  -117,   122,   639,  -140,   122,   334,  -290,
+       0,  -140,  -290,  -290,     0,     0,  -290,  -290,  -290,  -290,
+     123,  -290,     0,   123,   653,  -290,     0,   334,  -290,  -290,
+       0,  -290,  -290,     0,     0,     0,  -290,  -290,   -86,     0,
+       0,     0,     0,  -140,  -117,     0,     0,     0,     0,  -140,
+       0,     0,     0,     0,     0,   -86,     0,  -118,     0,     0,
+       0,  -117,  -290,  -290,  -290,  -117,   124,   125,   126,   124,
+     125,   126,     0,     0,  -118,  -290,  -290,  -290,  -290,  -290,
+       0,     0,  -290,  -290,   -77,  -290,  -290,  -290,  -290,  -290,
+    -290,  -293,  -290,  -290,  -293,  -290,     0,  -290,  -290,     0,
+    -293,   -77,   127,   -86,   -86,   127,     0,   -86,  -293,  -117,
+    -117,  -174,     0,  -117,     0,   128,     0,  -293,   128,     0,
+       0,  -149,  -118,  -118,     0,  -140,  -118,  -140,   487,   -86,
+    -149,     0,   -86,     0,     0,  -117,  -293,     0,  -117,     0,
+       0,     0,  -293,     0,     0,  -293,  -293,   152,  -118,   -77,
+     -77,  -118,     0,   -77,     0,     0,     0,  -293,     0,     0,
+    -293,     0,  -293,  -293,     0,     0,  -149,  -293,     0,  -293,
+    -293,     0,  -293,  -293,  -293,   -77,  -149,     0,   -77,     0,
+       0,  -293,     0,  -293,     0,  -293,  -293,     0,     0,     0,
+    -293,  -293,  -293,  -149,     0,     0,     0,  -149,     0,     0,
+    -293,     0,  -149,  -293,  -293,     0,     0,  -293,  -293,  -293,
+    -293,     0,  -293,     0,     0,     0,  -293,     0,     0,  -293,
+    -293,     0,  -293,  -293,     0,     0,     0,  -293,  -293,     0,
+       0,   -79,     0,     0,  -149,     0,     0,     0,     0,     0,
+    -149,     0,     0,     0,   -80,     0,     0,     0,   -79,     0,
+     531,     0,     0,  -293,  -293,  -293,     0,     0,     0,     0,
+       0,   -80,     0,     0,     0,     0,  -293,  -293,  -293,  -293,
+    -293,     0,     0,  -293,  -293,   -67,  -293,  -293,  -293,  -293,
+    -293,  -293,  -288,  -293,  -293,  -288,  -293,     0,  -293,  -293,
+     532,  -288,   -67,     0,     0,   533,   -79,   -79,     0,  -288,
+     -79,     0,   534,   535,     0,     0,   623,     0,  -288,   -80,
+     -80,     0,     0,   -80,     0,     0,  -149,     0,  -149,   536,
+       0,     0,   -79,  -352,   537,   -79,     0,  -288,     0,     0,
+       0,     0,     0,  -288,     0,   -80,  -288,  -288,   -80,     0,
+     -67,   -67,     0,     0,   -67,     0,     0,     0,  -288,     0,
+       0,  -288,     0,  -288,  -288,   624,     0,     0,  -288,     0,
+    -288,  -288,     0,  -288,  -288,  -288,   -67,     0,     0,   -67,
+       0,     0,  -288,     0,  -288,     0,  -288,  -288,     0,     0,
+       0,  -288,  -288,  -288,     0,     0,     0,     0,     0,     0,
+       0,  -288,     0,     0,  -288,  -288,     0,     0,  -288,  -288,
+    -288,  -288,     0,  -288,     0,     0,   376,  -288,     0,     0,
+    -288,  -288,     0,  -288,  -288,     0,     0,     0,  -288,  -288,
+     377,     0,   -74,     0,   378,   379,   380,   381,   382,     0,
+     383,   -75,     0,     0,     0,     0,     0,     0,   384,   -74,
+       0,     0,     0,     0,  -288,  -288,  -288,     0,   -75,     0,
+       0,     0,     0,     0,     0,     0,     0,  -288,  -288,  -288,
+    -288,  -288,     0,   385,  -288,  -288,     0,  -288,  -288,  -288,
+    -288,  -288,  -288,  -289,  -288,  -288,  -289,  -288,     0,  -288,
+    -288,   386,  -289,   387,   388,     0,     0,   -74,   -74,     0,
+    -289,   -74,     0,   -71,     0,     0,   -75,   -75,   389,  -289,
+     -75,     0,     0,   390,     0,   391,     0,     0,     0,     0,
+     -71,     0,   -72,   -74,     0,   392,   -74,     0,  -289,     0,
+       0,     0,   -75,     0,  -289,   -75,     0,  -289,  -289,   -72,
+     -78,     0,     0,     0,     0,     0,     0,     0,     0,  -289,
+       0,     0,  -289,     0,  -289,  -289,     0,   -78,   393,  -289,
+       0,  -289,  -289,     0,  -289,  -289,  -289,     0,   -71,   -71,
+       0,     0,   -71,  -289,   311,  -289,     0,  -289,  -289,     0,
+       0,     0,  -289,  -289,  -289,     0,     0,   -72,   -72,     0,
+       0,   -72,  -289,     0,   -71,  -289,  -289,   -71,     0,  -289,
+    -289,  -289,  -289,     0,  -289,   -78,   -78,     0,  -289,   -78,
+       0,  -289,  -289,   -72,  -289,  -289,   -72,     0,     0,  -289,
+    -289,   312,     0,   -81,     0,     0,     0,     0,     0,     0,
+       0,   -78,     0,     0,   -78,     0,   516,     0,     0,     0,
+     -81,   414,     0,     0,     0,  -289,  -289,  -289,     0,   315,
+       0,     0,     0,     0,     0,     0,   316,   317,  -289,  -289,
+    -289,  -289,  -289,     0,     0,  -289,  -289,   -76,  -289,  -289,
+    -289,  -289,  -289,  -289,  -298,  -289,  -289,  -298,  -289,     0,
+    -289,  -289,     0,  -298,   -76,     0,     0,     0,   -81,   -81,
+       0,  -298,   -81,     0,   -68,   318,   319,   320,   321,   322,
+    -298,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,   -68,   331,   489,   -81,     0,     0,   -81,     0,  -298,
+       0,     0,     0,     0,     0,  -298,     0,     0,  -298,  -298,
+     490,   -73,   -76,   -76,     0,     0,   -76,     0,     0,     0,
+    -298,     0,     0,  -298,     0,  -298,  -298,     0,   -73,     0,
+    -298,     0,  -298,  -298,   -82,  -298,  -298,  -298,   -76,   -68,
+     -68,   -76,     0,   -68,  -298,     0,  -298,     0,  -298,  -298,
+       0,   -82,     0,  -298,  -298,  -298,     0,     0,   491,   492,
+       0,     0,   493,  -298,     0,   -68,  -298,  -298,   -68,     0,
+    -298,  -298,  -298,  -298,     0,  -298,   -73,   -73,     0,  -298,
+     -73,     0,  -298,  -298,   -91,  -298,  -298,   -91,     0,     0,
+    -298,  -298,   -98,     0,   -97,     0,     0,     0,     0,   -82,
+     -82,     0,   -73,   -82,   489,   -73,     0,     0,     0,   -98,
+     -92,   -97,     0,     0,     0,     0,  -298,  -298,  -298,     0,
+       0,   490,     0,     0,     0,   -82,     0,   -92,   -82,  -298,
+    -298,  -298,  -298,  -298,     0,     0,  -298,  -298,     0,  -298,
+    -298,  -298,  -298,  -298,  -298,  -280,  -298,  -298,  -280,  -298,
+       0,  -298,  -298,     0,  -280,     0,     0,   -98,   -98,   -97,
+     -97,   -98,  -280,   -97,     0,   -94,     0,     0,     0,   491,
+     492,  -280,     0,   493,     0,   -92,   -92,     0,     0,   -92,
+       0,     0,   -94,   -98,     0,   -97,   -98,     0,   -97,     0,
+    -280,     0,     0,     0,     0,   -90,  -280,     0,   -90,  -280,
+    -280,   -92,   -99,     0,   -92,     0,     0,     0,     0,     0,
+       0,  -280,     0,     0,  -280,     0,  -280,  -280,     0,   -99,
+       0,  -280,     0,  -280,  -280,   -96,  -280,  -280,  -280,     0,
+     -94,   -94,     0,     0,   -94,  -280,     0,  -280,     0,  -280,
+    -280,     0,   -96,     0,  -280,  -280,  -280,     0,     0,     0,
+       0,     0,     0,     0,  -280,     0,   -94,  -280,  -280,   -94,
+       0,  -280,  -280,  -280,  -280,     0,  -280,   -99,   -99,     0,
+    -280,   -99,     0,  -280,  -280,     0,  -280,  -280,     0,     0,
+       0,  -280,  -280,   -93,     0,   -95,     0,     0,     0,     0,
+     -96,   -96,     0,   -99,   -96,   -70,   -99,     0,     0,     0,
+     -93,   -88,   -95,     0,     0,     0,     0,  -280,  -280,  -280,
+       0,     0,   -70,     0,     0,     0,   -96,     0,   -88,   -96,
+    -280,  -280,  -280,  -280,  -280,     0,     0,  -280,  -280,     0,
+    -280,  -280,  -280,  -280,  -280,  -280,  -281,  -280,  -280,  -281,
+    -280,     0,  -280,  -280,     0,  -281,     0,     0,   -93,   -93,
+     -95,   -95,   -93,  -281,   -95,     0,   -84,     0,     0,     0,
+     -70,   -70,  -281,     0,   -70,     0,   -88,   -88,     0,     0,
+     -88,     0,     0,   -84,   -93,     0,   -95,   -93,     0,   -95,
+       0,  -281,     0,     0,     0,     0,   -70,  -281,     0,   -70,
+    -281,  -281,   -88,   -69,     0,   -88,     0,     0,     0,     0,
+       0,     0,  -281,     0,     0,  -281,     0,  -281,  -281,     0,
+     -69,     0,  -281,     0,  -281,  -281,   -85,  -281,  -281,  -281,
+       0,   -84,   -84,     0,     0,   -84,  -281,     0,  -281,     0,
+    -281,  -281,     0,   -85,     0,  -281,  -281,  -281,     0,     0,
+       0,     0,     0,     0,     0,  -281,     0,   -84,  -281,  -281,
+     -84,     0,  -281,  -281,  -281,  -281,     0,  -281,   -69,   -69,
+       0,  -281,   -69,     0,  -281,  -281,     0,  -281,  -281,     0,
+       0,     0,  -281,  -281,  -103,     0,   -87,     0,     0,     0,
+       0,   -85,   -85,     0,   -69,   -85,     0,   -69,     0,     0,
+       0,  -103,     0,   -87,     0,     0,     0,     0,  -281,  -281,
+    -281,     0,     0,     0,     0,     0,     0,   -85,     0,     0,
+     -85,  -281,  -281,  -281,  -281,  -281,     0,     0,  -281,  -281,
+       0,  -281,  -281,  -281,  -281,  -281,  -281,  -282,  -281,  -281,
+    -282,  -281,     0,  -281,  -281,     0,  -282,     0,     0,  -103,
+    -103,   -87,   -87,  -103,  -282,   -87,     0,     0,     0,     0,
+       0,     0,     0,  -282,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -103,     0,   -87,  -103,     0,
+     -87,     0,  -282,     0,     0,     0,     0,     0,  -282,     0,
+       0,  -282,  -282,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -282,     0,     0,  -282,     0,  -282,  -282,
+       0,     0,     0,  -282,     0,  -282,  -282,     0,  -282,  -282,
+    -282,     0,     0,     0,     0,     0,     0,  -282,     0,  -282,
+       0,  -282,  -282,     0,     0,     0,  -282,  -282,  -282,     0,
+       0,     0,     0,     0,     0,     0,  -282,     0,     0,  -282,
+    -282,     0,     0,  -282,  -282,  -282,  -282,     0,  -282,     0,
+       0,     0,  -282,     0,     0,  -282,  -282,     0,  -282,  -282,
+       0,     0,     0,  -282,  -282,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -282,
+    -282,  -282,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -282,  -282,  -282,  -282,  -282,     0,     0,  -282,
+    -282,     0,  -282,  -282,  -282,  -282,  -282,  -282,  -291,  -282,
+    -282,  -291,  -282,     0,  -282,  -282,     0,  -291,     0,     0,
+       0,     0,     0,     0,     0,  -291,     0,     0,     0,     0,
+       0,     0,     0,     0,  -291,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -291,     0,     0,     0,     0,     0,  -291,
+       0,     0,  -291,  -291,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -291,     0,     0,  -291,     0,  -291,
+    -291,     0,     0,     0,  -291,     0,  -291,  -291,     0,  -291,
+    -291,  -291,     0,     0,     0,     0,     0,     0,  -291,     0,
+    -291,     0,  -291,  -291,     0,     0,     0,  -291,  -291,  -291,
+       0,     0,     0,     0,     0,     0,     0,  -291,     0,     0,
+    -291,  -291,     0,     0,  -291,  -291,  -291,  -291,     0,  -291,
+       0,     0,     0,  -291,     0,     0,  -291,  -291,     0,  -291,
+    -291,     0,     0,     0,  -291,  -291,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -291,  -291,  -291,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -291,  -291,  -291,  -291,  -291,     0,     0,
+    -291,  -291,     0,  -291,  -291,  -291,  -291,  -291,  -291,  -283,
+    -291,  -291,  -283,  -291,     0,  -291,  -291,     0,  -283,     0,
+       0,     0,     0,     0,     0,     0,  -283,     0,     0,     0,
+       0,     0,     0,     0,     0,  -283,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -283,     0,     0,     0,     0,     0,
+    -283,     0,     0,  -283,  -283,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -283,     0,     0,  -283,     0,
+    -283,  -283,     0,     0,     0,  -283,     0,  -283,  -283,     0,
+    -283,  -283,  -283,     0,     0,     0,     0,     0,     0,  -283,
+       0,  -283,     0,  -283,  -283,     0,     0,     0,  -283,  -283,
+    -283,     0,     0,     0,     0,     0,     0,     0,  -283,     0,
+       0,  -283,  -283,     0,     0,  -283,  -283,  -283,  -283,     0,
+    -283,     0,     0,     0,  -283,     0,     0,  -283,  -283,     0,
+    -283,  -283,     0,     0,     0,  -283,  -283,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -283,  -283,  -283,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -283,  -283,  -283,  -283,  -283,     0,
+       0,  -283,  -283,     0,  -283,  -283,  -283,  -283,  -283,  -283,
+    -284,  -283,  -283,  -284,  -283,     0,  -283,  -283,     0,  -284,
+       0,     0,     0,     0,     0,     0,     0,  -284,     0,     0,
+       0,     0,     0,     0,     0,     0,  -284,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -284,     0,     0,     0,     0,
+       0,  -284,     0,     0,  -284,  -284,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -284,     0,     0,  -284,
+       0,  -284,  -284,     0,     0,     0,  -284,     0,  -284,  -284,
+       0,  -284,  -284,  -284,     0,     0,     0,     0,     0,     0,
+    -284,     0,  -284,     0,  -284,  -284,     0,     0,     0,  -284,
+    -284,  -284,     0,     0,     0,     0,     0,     0,     0,  -284,
+       0,     0,  -284,  -284,     0,     0,  -284,  -284,  -284,  -284,
+       0,  -284,     0,     0,     0,  -284,     0,     0,  -284,  -284,
+       0,  -284,  -284,     0,     0,     0,  -284,  -284,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -284,  -284,  -284,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -284,  -284,  -284,  -284,  -284,
+       0,     0,  -284,  -284,     0,  -284,  -284,  -284,  -284,  -284,
+    -284,  -285,  -284,  -284,  -285,  -284,     0,  -284,  -284,     0,
+    -285,     0,     0,     0,     0,     0,     0,     0,  -285,     0,
+       0,     0,     0,     0,     0,     0,     0,  -285,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -285,     0,     0,     0,
+       0,     0,  -285,     0,     0,  -285,  -285,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -285,     0,     0,
+    -285,     0,  -285,  -285,     0,     0,     0,  -285,     0,  -285,
+    -285,     0,  -285,  -285,  -285,     0,     0,     0,     0,     0,
+       0,  -285,     0,  -285,     0,  -285,  -285,     0,     0,     0,
+    -285,  -285,  -285,     0,     0,     0,     0,     0,     0,     0,
+    -285,     0,     0,  -285,  -285,     0,     0,  -285,  -285,  -285,
+    -285,     0,  -285,     0,     0,     0,  -285,     0,     0,  -285,
+    -285,     0,  -285,  -285,     0,     0,     0,  -285,  -285,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -285,  -285,  -285,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -285,  -285,  -285,  -285,
+    -285,     0,     0,  -285,  -285,     0,  -285,  -285,  -285,  -285,
+    -285,  -285,  -286,  -285,  -285,  -286,  -285,     0,  -285,  -285,
+       0,  -286,     0,     0,     0,     0,     0,     0,     0,  -286,
+       0,     0,     0,     0,     0,     0,     0,     0,  -286,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -286,     0,     0,
+       0,     0,     0,  -286,     0,     0,  -286,  -286,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -286,     0,
+       0,  -286,     0,  -286,  -286,     0,     0,     0,  -286,     0,
+    -286,  -286,     0,  -286,  -286,  -286,     0,     0,     0,     0,
+       0,     0,  -286,     0,  -286,     0,  -286,  -286,     0,     0,
+       0,  -286,  -286,  -286,     0,     0,     0,     0,     0,     0,
+       0,  -286,     0,     0,  -286,  -286,     0,     0,  -286,  -286,
+    -286,  -286,     0,  -286,     0,     0,     0,  -286,     0,     0,
+    -286,  -286,     0,  -286,  -286,     0,     0,     0,  -286,  -286,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -286,  -286,  -286,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -286,  -286,  -286,
+    -286,  -286,     0,     0,  -286,  -286,     0,  -286,  -286,  -286,
+    -286,  -286,  -286,  -259,  -286,  -286,  -259,  -286,     0,  -286,
+    -286,     0,  -259,     0,     0,     0,     0,     0,     0,     0,
+    -259,     0,     0,     0,     0,     0,     0,     0,     0,  -259,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -259,     0,
+       0,     0,     0,     0,  -259,     0,     0,  -259,  -259,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -259,
+       0,     0,  -259,     0,  -259,  -259,     0,     0,     0,  -259,
+       0,  -259,  -259,     0,  -259,  -259,  -259,     0,     0,     0,
+       0,     0,     0,  -259,     0,  -259,     0,  -259,  -259,     0,
+       0,     0,  -259,  -259,  -259,     0,     0,     0,     0,     0,
+       0,     0,  -259,     0,     0,  -259,  -259,     0,     0,  -259,
+    -259,  -259,  -259,     0,  -259,     0,     0,     0,  -259,     0,
+       0,  -259,  -259,     0,  -259,  -259,     0,     0,     0,  -259,
+    -259,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -259,  -259,  -259,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -259,  -259,
+    -259,  -259,  -259,     0,     0,  -259,  -259,     0,  -259,  -259,
+    -259,  -259,  -259,  -259,  -260,  -259,  -259,  -260,  -259,     0,
+    -259,  -259,     0,  -260,     0,     0,     0,     0,     0,     0,
+       0,  -260,     0,     0,     0,     0,     0,     0,     0,     0,
+    -260,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -260,
+       0,     0,     0,     0,     0,  -260,     0,     0,  -260,  -260,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -260,     0,     0,  -260,     0,  -260,  -260,     0,     0,     0,
+    -260,     0,  -260,  -260,     0,  -260,  -260,  -260,     0,     0,
+       0,     0,     0,     0,  -260,     0,  -260,     0,  -260,  -260,
+       0,     0,     0,  -260,  -260,  -260,     0,     0,     0,     0,
+       0,     0,     0,  -260,     0,     0,  -260,  -260,     0,     0,
+    -260,  -260,  -260,  -260,     0,  -260,     0,     0,     0,  -260,
+       0,     0,  -260,  -260,     0,  -260,  -260,     0,     0,     0,
+    -260,  -260,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -260,  -260,  -260,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -260,
+    -260,  -260,  -260,  -260,     0,     0,  -260,  -260,     0,  -260,
+    -260,  -260,  -260,  -260,  -260,  -261,  -260,  -260,  -261,  -260,
+       0,  -260,  -260,     0,  -261,     0,     0,     0,     0,     0,
+       0,     0,  -261,     0,     0,     0,     0,     0,     0,     0,
+       0,  -261,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -261,     0,     0,     0,     0,     0,  -261,     0,     0,  -261,
+    -261,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -261,     0,     0,  -261,     0,  -261,  -261,     0,     0,
+       0,  -261,     0,  -261,  -261,     0,  -261,  -261,  -261,     0,
+       0,     0,     0,     0,     0,  -261,     0,  -261,     0,  -261,
+    -261,     0,     0,     0,  -261,  -261,  -261,     0,     0,     0,
+       0,     0,     0,     0,  -261,     0,     0,  -261,  -261,     0,
+       0,  -261,  -261,  -261,  -261,     0,  -261,     0,     0,     0,
+    -261,     0,     0,  -261,  -261,     0,  -261,  -261,     0,     0,
+       0,  -261,  -261,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -261,  -261,  -261,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -261,  -261,  -261,  -261,  -261,     0,     0,  -261,  -261,     0,
+    -261,  -261,  -261,  -261,  -261,  -261,  -262,  -261,  -261,  -262,
+    -261,     0,  -261,  -261,     0,  -262,     0,     0,     0,     0,
+       0,     0,     0,  -262,     0,     0,     0,     0,     0,     0,
+       0,     0,  -262,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -262,     0,     0,     0,     0,     0,  -262,     0,     0,
+    -262,  -262,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -262,     0,     0,  -262,     0,  -262,  -262,     0,
+       0,     0,  -262,     0,  -262,  -262,     0,  -262,  -262,  -262,
+       0,     0,     0,     0,     0,     0,  -262,     0,  -262,     0,
+    -262,  -262,     0,     0,     0,  -262,  -262,  -262,     0,     0,
+       0,     0,     0,     0,     0,  -262,     0,     0,  -262,  -262,
+       0,     0,  -262,  -262,  -262,  -262,     0,  -262,     0,     0,
+       0,  -262,     0,     0,  -262,  -262,     0,  -262,  -262,     0,
+       0,     0,  -262,  -262,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -262,  -262,
+    -262,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -262,  -262,  -262,  -262,  -262,     0,     0,  -262,  -262,
+       0,  -262,  -262,  -262,  -262,  -262,  -262,  -263,  -262,  -262,
+    -263,  -262,     0,  -262,  -262,     0,  -263,     0,     0,     0,
+       0,     0,     0,     0,  -263,     0,     0,     0,     0,     0,
+       0,     0,     0,  -263,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -263,     0,     0,     0,     0,     0,  -263,     0,
+       0,  -263,  -263,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -263,     0,     0,  -263,     0,  -263,  -263,
+       0,     0,     0,  -263,     0,  -263,  -263,     0,  -263,  -263,
+    -263,     0,     0,     0,     0,     0,     0,  -263,     0,  -263,
+       0,  -263,  -263,     0,     0,     0,  -263,  -263,  -263,     0,
+       0,     0,     0,     0,     0,     0,  -263,     0,     0,  -263,
+    -263,     0,     0,  -263,  -263,  -263,  -263,     0,  -263,     0,
+       0,     0,  -263,     0,     0,  -263,  -263,     0,  -263,  -263,
+       0,     0,     0,  -263,  -263,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -263,
+    -263,  -263,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -263,  -263,  -263,  -263,  -263,     0,     0,  -263,
+    -263,     0,  -263,  -263,  -263,  -263,  -263,  -263,  -264,  -263,
+    -263,  -264,  -263,     0,  -263,  -263,     0,  -264,     0,     0,
+       0,     0,     0,     0,     0,  -264,     0,     0,     0,     0,
+       0,     0,     0,     0,  -264,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -264,     0,     0,     0,     0,     0,  -264,
+       0,     0,  -264,  -264,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -264,     0,     0,  -264,     0,  -264,
+    -264,     0,     0,     0,  -264,     0,  -264,  -264,     0,  -264,
+    -264,  -264,     0,     0,     0,     0,     0,     0,  -264,     0,
+    -264,     0,  -264,  -264,     0,     0,     0,  -264,  -264,  -264,
+       0,     0,     0,     0,     0,     0,     0,  -264,     0,     0,
+    -264,  -264,     0,     0,  -264,  -264,  -264,  -264,     0,  -264,
+       0,     0,     0,  -264,     0,     0,  -264,  -264,     0,  -264,
+    -264,     0,     0,     0,  -264,  -264,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -264,  -264,  -264,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -264,  -264,  -264,  -264,  -264,     0,     0,
+    -264,  -264,     0,  -264,  -264,  -264,  -264,  -264,  -264,  -265,
+    -264,  -264,  -265,  -264,     0,  -264,  -264,     0,  -265,     0,
+       0,     0,     0,     0,     0,     0,  -265,     0,     0,     0,
+       0,     0,     0,     0,     0,  -265,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -265,     0,     0,     0,     0,     0,
+    -265,     0,     0,  -265,  -265,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -265,     0,     0,  -265,     0,
+    -265,  -265,     0,     0,     0,  -265,     0,  -265,  -265,     0,
+    -265,  -265,  -265,     0,     0,     0,     0,     0,     0,  -265,
+       0,  -265,     0,  -265,  -265,     0,     0,     0,  -265,  -265,
+    -265,     0,     0,     0,     0,     0,     0,     0,  -265,     0,
+       0,  -265,  -265,     0,     0,  -265,  -265,  -265,  -265,     0,
+    -265,     0,     0,     0,  -265,     0,     0,  -265,  -265,     0,
+    -265,  -265,     0,     0,     0,  -265,  -265,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -265,  -265,  -265,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -265,  -265,  -265,  -265,  -265,     0,
+       0,  -265,  -265,     0,  -265,  -265,  -265,  -265,  -265,  -265,
+    -266,  -265,  -265,  -266,  -265,     0,  -265,  -265,     0,  -266,
+       0,     0,     0,     0,     0,     0,     0,  -266,     0,     0,
+       0,     0,     0,     0,     0,     0,  -266,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -266,     0,     0,     0,     0,
+       0,  -266,     0,     0,  -266,  -266,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -266,     0,     0,  -266,
+       0,  -266,  -266,     0,     0,     0,  -266,     0,  -266,  -266,
+       0,  -266,  -266,  -266,     0,     0,     0,     0,     0,     0,
+    -266,     0,  -266,     0,  -266,  -266,     0,     0,     0,  -266,
+    -266,  -266,     0,     0,     0,     0,     0,     0,     0,  -266,
+       0,     0,  -266,  -266,     0,     0,  -266,  -266,  -266,  -266,
+       0,  -266,     0,     0,     0,  -266,     0,     0,  -266,  -266,
+       0,  -266,  -266,     0,     0,     0,  -266,  -266,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -266,  -266,  -266,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -266,  -266,  -266,  -266,  -266,
+       0,     0,  -266,  -266,     0,  -266,  -266,  -266,  -266,  -266,
+    -266,  -267,  -266,  -266,  -267,  -266,     0,  -266,  -266,     0,
+    -267,     0,     0,     0,     0,     0,     0,     0,  -267,     0,
+       0,     0,     0,     0,     0,     0,     0,  -267,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -267,     0,     0,     0,
+       0,     0,  -267,     0,     0,  -267,  -267,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -267,     0,     0,
+    -267,     0,  -267,  -267,     0,     0,     0,  -267,     0,  -267,
+    -267,     0,  -267,  -267,  -267,     0,     0,     0,     0,     0,
+       0,  -267,     0,  -267,     0,  -267,  -267,     0,     0,     0,
+    -267,  -267,  -267,     0,     0,     0,     0,     0,     0,     0,
+    -267,     0,     0,  -267,  -267,     0,     0,  -267,  -267,  -267,
+    -267,     0,  -267,     0,     0,     0,  -267,     0,     0,  -267,
+    -267,     0,  -267,  -267,     0,     0,     0,  -267,  -267,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -267,  -267,  -267,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -267,  -267,  -267,  -267,
+    -267,     0,     0,  -267,  -267,     0,  -267,  -267,  -267,  -267,
+    -267,  -267,  -268,  -267,  -267,  -268,  -267,     0,  -267,  -267,
+       0,  -268,     0,     0,     0,     0,     0,     0,     0,  -268,
+       0,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -268,     0,     0,
+       0,     0,     0,  -268,     0,     0,  -268,  -268,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -268,     0,
+       0,  -268,     0,  -268,  -268,     0,     0,     0,  -268,     0,
+    -268,  -268,     0,  -268,  -268,  -268,     0,     0,     0,     0,
+       0,     0,  -268,     0,  -268,     0,  -268,  -268,     0,     0,
+       0,  -268,  -268,  -268,     0,     0,     0,     0,     0,     0,
+       0,  -268,     0,     0,  -268,  -268,     0,     0,  -268,  -268,
+    -268,  -268,     0,  -268,     0,     0,     0,  -268,     0,     0,
+    -268,  -268,     0,  -268,  -268,     0,     0,     0,  -268,  -268,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -268,  -268,  -268,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -268,  -268,  -268,
+    -268,  -268,     0,     0,  -268,  -268,     0,  -268,  -268,  -268,
+    -268,  -268,  -268,  -269,  -268,  -268,  -269,  -268,     0,  -268,
+    -268,     0,  -269,     0,     0,     0,     0,     0,     0,     0,
+    -269,     0,     0,     0,     0,     0,     0,     0,     0,  -269,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -269,     0,
+       0,     0,     0,     0,  -269,     0,     0,  -269,  -269,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -269,
+       0,     0,  -269,     0,  -269,  -269,     0,     0,     0,  -269,
+       0,  -269,  -269,     0,  -269,  -269,  -269,     0,     0,     0,
+       0,     0,     0,  -269,     0,  -269,     0,  -269,  -269,     0,
+       0,     0,  -269,  -269,  -269,     0,     0,     0,     0,     0,
+       0,     0,  -269,     0,     0,  -269,  -269,     0,     0,  -269,
+    -269,  -269,  -269,     0,  -269,     0,     0,     0,  -269,     0,
+       0,  -269,  -269,     0,  -269,  -269,     0,     0,     0,  -269,
+    -269,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -269,  -269,  -269,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -269,  -269,
+    -269,  -269,  -269,     0,     0,  -269,  -269,     0,  -269,  -269,
+    -269,  -269,  -269,  -269,  -270,  -269,  -269,  -270,  -269,     0,
+    -269,  -269,     0,  -270,     0,     0,     0,     0,     0,     0,
+       0,  -270,     0,     0,     0,     0,     0,     0,     0,     0,
+    -270,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
+       0,     0,     0,     0,     0,  -270,     0,     0,  -270,  -270,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -270,     0,     0,  -270,     0,  -270,  -270,     0,     0,     0,
+    -270,     0,  -270,  -270,     0,  -270,  -270,  -270,     0,     0,
+       0,     0,     0,     0,  -270,     0,  -270,     0,  -270,  -270,
+       0,     0,     0,  -270,  -270,  -270,     0,     0,     0,     0,
+       0,     0,     0,  -270,     0,     0,  -270,  -270,     0,     0,
+    -270,  -270,  -270,  -270,     0,  -270,     0,     0,     0,  -270,
+       0,     0,  -270,  -270,     0,  -270,  -270,     0,     0,     0,
+    -270,  -270,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -270,  -270,  -270,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -270,
+    -270,  -270,  -270,  -270,     0,     0,  -270,  -270,     0,  -270,
+    -270,  -270,  -270,  -270,  -270,  -271,  -270,  -270,  -271,  -270,
+       0,  -270,  -270,     0,  -271,     0,     0,     0,     0,     0,
+       0,     0,  -271,     0,     0,     0,     0,     0,     0,     0,
+       0,  -271,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -271,     0,     0,     0,     0,     0,  -271,     0,     0,  -271,
+    -271,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -271,     0,     0,  -271,     0,  -271,  -271,     0,     0,
+       0,  -271,     0,  -271,  -271,     0,  -271,  -271,  -271,     0,
+       0,     0,     0,     0,     0,  -271,     0,  -271,     0,  -271,
+    -271,     0,     0,     0,  -271,  -271,  -271,     0,     0,     0,
+       0,     0,     0,     0,  -271,     0,     0,  -271,  -271,     0,
+       0,  -271,  -271,  -271,  -271,     0,  -271,     0,     0,     0,
+    -271,     0,     0,  -271,  -271,     0,  -271,  -271,     0,     0,
+       0,  -271,  -271,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -271,  -271,  -271,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -271,  -271,  -271,  -271,  -271,     0,     0,  -271,  -271,     0,
+    -271,  -271,  -271,  -271,  -271,  -271,  -272,  -271,  -271,  -272,
+    -271,     0,  -271,  -271,     0,  -272,     0,     0,     0,     0,
+       0,     0,     0,  -272,     0,     0,     0,     0,     0,     0,
+       0,     0,  -272,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -272,     0,     0,     0,     0,     0,  -272,     0,     0,
+    -272,  -272,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -272,     0,     0,  -272,     0,  -272,  -272,     0,
+       0,     0,  -272,     0,  -272,  -272,     0,  -272,  -272,  -272,
+       0,     0,     0,     0,     0,     0,  -272,     0,  -272,     0,
+    -272,  -272,     0,     0,     0,  -272,  -272,  -272,     0,     0,
+       0,     0,     0,     0,     0,  -272,     0,     0,  -272,  -272,
+       0,     0,  -272,  -272,  -272,  -272,     0,  -272,     0,     0,
+       0,  -272,     0,     0,  -272,  -272,     0,  -272,  -272,     0,
+       0,     0,  -272,  -272,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -272,  -272,
+    -272,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -272,  -272,  -272,  -272,  -272,     0,     0,  -272,  -272,
+       0,  -272,  -272,  -272,  -272,  -272,  -272,  -295,  -272,  -272,
+    -295,  -272,     0,  -272,  -272,     0,  -295,     0,     0,     0,
+       0,     0,     0,     0,  -295,     0,     0,     0,     0,     0,
+       0,     0,     0,  -295,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -295,     0,     0,     0,     0,     0,  -295,     0,
+       0,  -295,  -295,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -295,     0,     0,  -295,     0,  -295,  -295,
+       0,     0,     0,  -295,     0,  -295,  -295,     0,  -295,  -295,
+    -295,     0,     0,     0,     0,     0,     0,  -295,     0,  -295,
+       0,  -295,  -295,     0,     0,     0,  -295,  -295,  -295,     0,
+       0,     0,     0,     0,     0,     0,  -295,     0,     0,  -295,
+    -295,     0,     0,  -295,  -295,  -295,  -295,     0,  -295,     0,
+       0,     0,  -295,     0,     0,  -295,  -295,     0,  -295,  -295,
+       0,     0,     0,  -295,  -295,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -295,
+    -295,  -295,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -295,  -295,  -295,  -295,  -295,     0,     0,  -295,
+    -295,     0,  -295,  -295,  -295,  -295,  -295,  -295,  -294,  -295,
+    -295,  -294,  -295,     0,  -295,  -295,     0,  -294,     0,     0,
+       0,     0,     0,     0,     0,  -294,     0,     0,     0,     0,
+       0,     0,     0,     0,  -294,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -294,     0,     0,     0,     0,     0,  -294,
+       0,     0,  -294,  -294,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -294,     0,     0,  -294,     0,  -294,
+    -294,     0,     0,     0,  -294,     0,  -294,  -294,     0,  -294,
+    -294,  -294,     0,     0,     0,     0,     0,     0,  -294,     0,
+    -294,     0,  -294,  -294,     0,     0,     0,  -294,  -294,  -294,
+       0,     0,     0,     0,     0,     0,     0,  -294,     0,     0,
+    -294,  -294,     0,     0,  -294,  -294,  -294,  -294,     0,  -294,
+       0,     0,     0,  -294,     0,     0,  -294,  -294,     0,  -294,
+    -294,     0,     0,     0,  -294,  -294,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -294,  -294,  -294,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -294,  -294,  -294,  -294,  -294,     0,     0,
+    -294,  -294,     0,  -294,  -294,  -294,  -294,  -294,  -294,  -278,
+    -294,  -294,  -278,  -294,     0,  -294,  -294,     0,  -278,     0,
+       0,     0,     0,     0,     0,     0,  -278,     0,     0,     0,
+       0,     0,     0,     0,     0,  -278,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -278,     0,     0,     0,     0,     0,
+    -278,     0,     0,  -278,  -278,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -278,     0,     0,  -278,     0,
+    -278,  -278,     0,     0,     0,  -278,     0,  -278,  -278,     0,
+    -278,  -278,  -278,     0,     0,     0,     0,     0,     0,  -278,
+       0,  -278,     0,  -278,  -278,     0,     0,     0,  -278,  -278,
+    -278,     0,     0,     0,     0,     0,     0,     0,  -278,     0,
+       0,  -278,  -278,     0,     0,  -278,  -278,  -278,  -278,     0,
+    -278,     0,     0,     0,  -278,     0,     0,  -278,  -278,     0,
+    -278,  -278,     0,     0,     0,  -278,  -278,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -278,  -278,  -278,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -278,  -278,  -278,  -278,  -278,     0,
+       0,  -278,  -278,     0,  -278,  -278,  -278,  -278,  -278,  -278,
+    -183,  -278,  -278,  -183,  -278,     0,  -278,  -278,     0,  -183,
+       0,     0,     0,     0,     0,     0,     0,   310,     0,     0,
+       0,     0,     0,     0,     0,     0,  -183,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -183,     0,     0,     0,     0,
+       0,  -183,     0,     0,   311,  -183,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -183,     0,     0,  -183,
+       0,  -183,  -183,     0,     0,     0,  -183,     0,  -183,  -183,
+       0,  -183,  -183,  -183,     0,     0,     0,     0,     0,     0,
+    -183,     0,  -183,     0,  -183,  -183,     0,     0,     0,  -183,
+    -183,   312,     0,     0,     0,     0,     0,     0,     0,  -183,
+       0,     0,  -183,  -183,     0,     0,  -183,  -183,  -183,  -183,
+       0,   313,     0,     0,     0,  -183,     0,     0,   314,   315,
+       0,  -183,  -183,     0,     0,     0,   316,   317,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -183,  -183,  -183,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   318,   319,   320,   321,   322,
+       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,  -190,   331,  -183,  -190,  -183,     0,  -183,  -183,     0,
+    -190,     0,     0,     0,     0,     0,     0,     0,  -190,     0,
+       0,     0,     0,     0,     0,     0,     0,  -190,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -190,     0,     0,     0,
+       0,     0,  -190,     0,     0,  -190,  -190,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -190,     0,     0,
+    -190,     0,  -190,  -190,     0,     0,     0,  -190,     0,  -190,
+    -190,     0,  -190,  -190,  -190,     0,     0,     0,     0,     0,
+       0,  -190,     0,  -190,     0,  -190,  -190,     0,     0,     0,
+    -190,  -190,  -190,     0,     0,     0,     0,     0,     0,     0,
+    -190,     0,     0,  -190,  -190,     0,     0,  -190,  -190,  -190,
+    -190,     0,  -190,     0,     0,     0,  -190,     0,     0,  -190,
+    -190,     0,  -190,  -190,     0,     0,     0,  -190,  -190,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -190,  -190,  -190,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -190,  -190,  -190,  -190,
+    -190,     0,     0,  -190,  -190,     0,  -190,  -190,  -190,  -190,
+    -190,  -190,  -191,  -190,  -190,  -191,  -190,     0,  -190,  -190,
+       0,  -191,     0,     0,     0,     0,     0,     0,     0,  -191,
+       0,     0,     0,     0,     0,     0,     0,     0,  -191,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -191,     0,     0,
+       0,     0,     0,  -191,     0,     0,  -191,  -191,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -191,     0,
+       0,  -191,     0,  -191,  -191,     0,     0,     0,  -191,     0,
+    -191,  -191,     0,  -191,  -191,  -191,     0,     0,     0,     0,
+       0,     0,  -191,     0,  -191,     0,  -191,  -191,     0,     0,
+       0,  -191,  -191,  -191,     0,     0,     0,     0,     0,     0,
+       0,  -191,     0,     0,  -191,  -191,     0,     0,  -191,  -191,
+    -191,  -191,     0,  -191,     0,     0,     0,  -191,     0,     0,
+    -191,  -191,     0,  -191,  -191,     0,     0,     0,  -191,  -191,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -191,  -191,  -191,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -191,  -191,  -191,
+    -191,  -191,     0,     0,  -191,  -191,     0,  -191,  -191,  -191,
+    -191,  -191,  -191,  -192,  -191,  -191,  -192,  -191,     0,  -191,
+    -191,     0,  -192,     0,     0,     0,     0,     0,     0,     0,
+    -192,     0,     0,     0,     0,     0,     0,     0,     0,  -192,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -192,     0,
+       0,     0,     0,     0,  -192,     0,     0,  -192,  -192,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -192,
+       0,     0,  -192,     0,  -192,  -192,     0,     0,     0,  -192,
+       0,  -192,  -192,     0,  -192,  -192,  -192,     0,     0,     0,
+       0,     0,     0,  -192,     0,  -192,     0,  -192,  -192,     0,
+       0,     0,  -192,  -192,  -192,     0,     0,     0,     0,     0,
+       0,     0,  -192,     0,     0,  -192,  -192,     0,     0,  -192,
+    -192,  -192,  -192,     0,  -192,     0,     0,     0,  -192,     0,
+       0,  -192,  -192,     0,  -192,  -192,     0,     0,     0,  -192,
+    -192,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -192,  -192,  -192,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -192,  -192,
+    -192,  -192,  -192,     0,     0,  -192,  -192,     0,  -192,  -192,
+    -192,  -192,  -192,  -192,  -193,  -192,  -192,  -193,  -192,     0,
+    -192,  -192,     0,  -193,     0,     0,     0,     0,     0,     0,
+       0,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
+    -193,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -193,
+       0,     0,     0,     0,     0,  -193,     0,     0,  -193,  -193,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -193,     0,     0,  -193,     0,  -193,  -193,     0,     0,     0,
+    -193,     0,  -193,  -193,     0,  -193,  -193,  -193,     0,     0,
+       0,     0,     0,     0,  -193,     0,  -193,     0,  -193,  -193,
+       0,     0,     0,  -193,  -193,  -193,     0,     0,     0,     0,
+       0,     0,     0,  -193,     0,     0,  -193,  -193,     0,     0,
+    -193,  -193,  -193,  -193,     0,  -193,     0,     0,     0,  -193,
+       0,     0,  -193,  -193,     0,  -193,  -193,     0,     0,     0,
+    -193,  -193,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -193,  -193,  -193,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -193,
+    -193,  -193,  -193,  -193,     0,     0,  -193,  -193,     0,  -193,
+    -193,  -193,  -193,  -193,  -193,  -206,  -193,  -193,  -206,  -193,
+       0,  -193,  -193,     0,  -206,     0,     0,     0,     0,     0,
+       0,     0,  -206,     0,     0,     0,     0,     0,     0,     0,
+       0,  -206,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -206,     0,     0,     0,     0,     0,  -206,     0,     0,  -206,
+    -206,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -206,     0,     0,  -206,     0,  -206,  -206,     0,     0,
+       0,  -206,     0,  -206,  -206,     0,  -206,  -206,  -206,     0,
+       0,     0,     0,     0,     0,  -206,     0,  -206,     0,  -206,
+    -206,     0,     0,     0,  -206,  -206,  -206,     0,     0,     0,
+       0,     0,     0,     0,  -206,     0,     0,  -206,  -206,     0,
+       0,  -206,  -206,  -206,  -206,     0,  -206,     0,     0,     0,
+    -206,     0,     0,  -206,  -206,     0,  -206,  -206,     0,     0,
+       0,  -206,  -206,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -206,  -206,  -206,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -206,  -206,  -206,  -206,  -206,     0,     0,  -206,  -206,     0,
+    -206,  -206,  -206,  -206,  -206,  -206,  -194,  -206,  -206,  -194,
+    -206,     0,  -206,  -206,     0,  -194,     0,     0,     0,     0,
+       0,     0,     0,  -194,     0,     0,     0,     0,     0,     0,
+       0,     0,  -194,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -194,     0,     0,     0,     0,     0,  -194,     0,     0,
+    -194,  -194,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -194,     0,     0,  -194,     0,  -194,  -194,     0,
+       0,     0,  -194,     0,  -194,  -194,     0,  -194,  -194,  -194,
+       0,     0,     0,     0,     0,     0,  -194,     0,  -194,     0,
+    -194,  -194,     0,     0,     0,  -194,  -194,  -194,     0,     0,
+       0,     0,     0,     0,     0,  -194,     0,     0,  -194,  -194,
+       0,     0,  -194,  -194,  -194,  -194,     0,  -194,     0,     0,
+       0,  -194,     0,     0,  -194,  -194,     0,  -194,  -194,     0,
+       0,     0,  -194,  -194,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -194,  -194,
+    -194,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -194,  -194,  -194,  -194,  -194,     0,     0,  -194,  -194,
+       0,  -194,  -194,  -194,  -194,  -194,  -194,  -195,  -194,  -194,
+    -195,  -194,     0,  -194,  -194,     0,  -195,     0,     0,     0,
+       0,     0,     0,     0,  -195,     0,     0,     0,     0,     0,
+       0,     0,     0,  -195,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -195,     0,     0,     0,     0,     0,  -195,     0,
+       0,  -195,  -195,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -195,     0,     0,  -195,     0,  -195,  -195,
+       0,     0,     0,  -195,     0,  -195,  -195,     0,  -195,  -195,
+    -195,     0,     0,     0,     0,     0,     0,  -195,     0,  -195,
+       0,  -195,  -195,     0,     0,     0,  -195,  -195,  -195,     0,
+       0,     0,     0,     0,     0,     0,  -195,     0,     0,  -195,
+    -195,     0,     0,  -195,  -195,  -195,  -195,     0,  -195,     0,
+       0,     0,  -195,     0,     0,  -195,  -195,     0,  -195,  -195,
+       0,     0,     0,  -195,  -195,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -195,
+    -195,  -195,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -195,  -195,  -195,  -195,  -195,     0,     0,  -195,
+    -195,     0,  -195,  -195,  -195,  -195,  -195,  -195,  -196,  -195,
+    -195,  -196,  -195,     0,  -195,  -195,     0,  -196,     0,     0,
+       0,     0,     0,     0,     0,  -196,     0,     0,     0,     0,
+       0,     0,     0,     0,  -196,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -196,     0,     0,     0,     0,     0,  -196,
+       0,     0,  -196,  -196,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -196,     0,     0,  -196,     0,  -196,
+    -196,     0,     0,     0,  -196,     0,  -196,  -196,     0,  -196,
+    -196,  -196,     0,     0,     0,     0,     0,     0,  -196,     0,
+    -196,     0,  -196,  -196,     0,     0,     0,  -196,  -196,  -196,
+       0,     0,     0,     0,     0,     0,     0,  -196,     0,     0,
+    -196,  -196,     0,     0,  -196,  -196,  -196,  -196,     0,  -196,
+       0,     0,     0,  -196,     0,     0,  -196,  -196,     0,  -196,
+    -196,     0,     0,     0,  -196,  -196,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -196,  -196,  -196,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -196,  -196,  -196,  -196,  -196,     0,     0,
+    -196,  -196,     0,  -196,  -196,  -196,  -196,  -196,  -196,  -197,
+    -196,  -196,  -197,  -196,     0,  -196,  -196,     0,  -197,     0,
+       0,     0,     0,     0,     0,     0,  -197,     0,     0,     0,
+       0,     0,     0,     0,     0,  -197,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -197,     0,     0,     0,     0,     0,
+    -197,     0,     0,  -197,  -197,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -197,     0,     0,  -197,     0,
+    -197,  -197,     0,     0,     0,  -197,     0,  -197,  -197,     0,
+    -197,  -197,  -197,     0,     0,     0,     0,     0,     0,  -197,
+       0,  -197,     0,  -197,  -197,     0,     0,     0,  -197,  -197,
+    -197,     0,     0,     0,     0,     0,     0,     0,  -197,     0,
+       0,  -197,  -197,     0,     0,  -197,  -197,  -197,  -197,     0,
+    -197,     0,     0,     0,  -197,     0,     0,  -197,  -197,     0,
+    -197,  -197,     0,     0,     0,  -197,  -197,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -197,  -197,  -197,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -197,  -197,  -197,  -197,  -197,     0,
+       0,  -197,  -197,     0,  -197,  -197,  -197,  -197,  -197,  -197,
+    -189,  -197,  -197,  -189,  -197,     0,  -197,  -197,     0,  -189,
+       0,     0,     0,     0,     0,     0,     0,  -189,     0,     0,
+       0,     0,     0,     0,     0,     0,  -189,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -189,     0,     0,     0,     0,
+       0,  -189,     0,     0,  -189,  -189,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -189,     0,     0,  -189,
+       0,  -189,  -189,     0,     0,     0,  -189,     0,  -189,  -189,
+       0,  -189,  -189,  -189,     0,     0,     0,     0,     0,     0,
+    -189,     0,  -189,     0,  -189,  -189,     0,     0,     0,  -189,
+    -189,  -189,     0,     0,     0,     0,     0,     0,     0,  -189,
+       0,     0,  -189,  -189,     0,     0,  -189,  -189,  -189,  -189,
+       0,  -189,     0,     0,     0,  -189,     0,     0,  -189,  -189,
+       0,  -189,  -189,     0,     0,     0,  -189,  -189,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -189,  -189,  -189,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -189,  -189,  -189,  -189,  -189,
+       0,     0,  -189,  -189,     0,  -189,  -189,  -189,  -189,  -189,
+    -189,  -199,  -189,  -189,  -199,  -189,     0,  -189,  -189,     0,
+    -199,     0,     0,     0,     0,     0,     0,     0,  -199,     0,
+       0,     0,     0,     0,     0,     0,     0,  -199,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -199,     0,     0,     0,
+       0,     0,  -199,     0,     0,  -199,  -199,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -199,     0,     0,
+    -199,     0,  -199,  -199,     0,     0,     0,  -199,     0,  -199,
+    -199,     0,  -199,  -199,  -199,     0,     0,     0,     0,     0,
+       0,  -199,     0,  -199,     0,  -199,  -199,     0,     0,     0,
+    -199,  -199,  -199,     0,     0,     0,     0,     0,     0,     0,
+    -199,     0,     0,  -199,  -199,     0,     0,  -199,  -199,  -199,
+    -199,     0,  -199,     0,     0,     0,  -199,     0,     0,  -199,
+    -199,     0,  -199,  -199,     0,     0,     0,  -199,  -199,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -199,  -199,  -199,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -199,  -199,  -199,  -199,
+    -199,     0,     0,  -199,  -199,     0,  -199,  -199,  -199,  -199,
+    -199,  -199,  -200,  -199,  -199,  -200,  -199,     0,  -199,  -199,
+       0,  -200,     0,     0,     0,     0,     0,     0,     0,  -200,
+       0,     0,     0,     0,     0,     0,     0,     0,  -200,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -200,     0,     0,
+       0,     0,     0,  -200,     0,     0,  -200,  -200,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -200,     0,
+       0,  -200,     0,  -200,  -200,     0,     0,     0,  -200,     0,
+    -200,  -200,     0,  -200,  -200,  -200,     0,     0,     0,     0,
+       0,     0,  -200,     0,  -200,     0,  -200,  -200,     0,     0,
+       0,  -200,  -200,  -200,     0,     0,     0,     0,     0,     0,
+       0,  -200,     0,     0,  -200,  -200,     0,     0,  -200,  -200,
+    -200,  -200,     0,  -200,     0,     0,     0,  -200,     0,     0,
+    -200,  -200,     0,  -200,  -200,     0,     0,     0,  -200,  -200,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -200,  -200,  -200,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -200,  -200,  -200,
+    -200,  -200,     0,     0,  -200,  -200,     0,  -200,  -200,  -200,
+    -200,  -200,  -200,  -296,  -200,  -200,  -296,  -200,     0,  -200,
+    -200,     0,  -296,     0,     0,     0,     0,     0,     0,     0,
+    -296,     0,     0,     0,     0,     0,     0,     0,     0,  -296,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -296,     0,
+       0,     0,     0,     0,  -296,     0,     0,  -296,  -296,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -296,
+       0,     0,  -296,     0,  -296,  -296,     0,     0,     0,  -296,
+       0,  -296,  -296,     0,  -296,  -296,  -296,     0,     0,     0,
+       0,     0,     0,  -296,     0,  -296,     0,  -296,  -296,     0,
+       0,     0,  -296,  -296,  -296,     0,     0,     0,     0,     0,
+       0,     0,  -296,     0,     0,  -296,  -296,     0,     0,  -296,
+    -296,  -296,  -296,     0,  -296,     0,     0,     0,  -296,     0,
+       0,  -296,  -296,     0,  -296,  -296,     0,     0,     0,  -296,
+    -296,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -296,  -296,  -296,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -296,  -296,
+    -296,  -296,  -296,     0,     0,  -296,  -296,     0,  -296,  -296,
+    -296,  -296,  -296,  -296,  -202,  -296,  -296,  -202,  -296,     0,
+    -296,  -296,     0,  -202,     0,     0,     0,     0,     0,     0,
+       0,  -202,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -202,
+       0,     0,     0,     0,     0,  -202,     0,     0,   311,  -202,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,     0,     0,  -202,     0,  -202,  -202,     0,     0,     0,
+    -202,     0,  -202,  -202,     0,  -202,  -202,  -202,     0,     0,
+       0,     0,     0,     0,  -202,     0,  -202,     0,  -202,  -202,
+       0,     0,     0,  -202,  -202,   312,     0,     0,     0,     0,
+       0,     0,     0,  -202,     0,     0,  -202,  -202,     0,     0,
+    -202,  -202,  -202,  -202,     0,   414,     0,     0,     0,  -202,
+       0,     0,  -202,   315,     0,  -202,  -202,     0,     0,     0,
+     316,   317,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -202,  -202,  -202,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,   318,
+     319,   320,   321,   322,     0,     0,   323,   324,     0,   325,
+     326,   327,   328,   329,   330,  -201,   331,  -202,  -201,  -202,
+       0,  -202,  -202,     0,  -201,     0,     0,     0,     0,     0,
+       0,     0,  -201,     0,     0,     0,     0,     0,     0,     0,
+       0,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -201,     0,     0,     0,     0,     0,  -201,     0,     0,  -201,
+    -201,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -201,     0,     0,  -201,     0,  -201,  -201,     0,     0,
+       0,  -201,     0,  -201,  -201,     0,  -201,  -201,  -201,     0,
+       0,     0,     0,     0,     0,  -201,     0,  -201,     0,  -201,
+    -201,     0,     0,     0,  -201,  -201,  -201,     0,     0,     0,
+       0,     0,     0,     0,  -201,     0,     0,  -201,  -201,     0,
+       0,  -201,  -201,  -201,  -201,     0,  -201,     0,     0,     0,
+    -201,     0,     0,  -201,  -201,     0,  -201,  -201,     0,     0,
+       0,   316,  -201,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -201,  -201,  -201,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -201,  -201,  -201,  -201,  -201,     0,     0,  -201,  -201,     0,
+    -201,  -201,   327,   328,   329,   330,  -203,   331,  -201,  -203,
+    -201,     0,  -201,  -201,     0,  -203,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,     0,     0,     0,     0,
+       0,     0,  -203,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -203,     0,     0,     0,     0,     0,  -203,     0,     0,
+    -203,  -203,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -203,     0,     0,  -203,     0,  -203,  -203,     0,
+       0,     0,  -203,     0,  -203,  -203,     0,  -203,  -203,  -203,
+       0,     0,     0,     0,     0,     0,  -203,     0,  -203,     0,
+    -203,  -203,     0,     0,     0,  -203,  -203,  -203,     0,     0,
+       0,     0,     0,     0,     0,  -203,     0,     0,  -203,  -203,
+       0,     0,  -203,  -203,  -203,  -203,     0,  -203,     0,     0,
+       0,  -203,     0,     0,  -203,  -203,     0,  -203,  -203,     0,
+       0,     0,  -203,  -203,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -203,  -203,
+    -203,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -203,  -203,  -203,  -203,  -203,     0,     0,  -203,  -203,
+       0,  -203,  -203,  -203,  -203,  -203,  -203,  -279,  -203,  -203,
+    -279,  -203,     0,  -203,  -203,     0,  -279,     0,     0,     0,
+       0,     0,     0,     0,  -279,     0,     0,     0,     0,     0,
+       0,     0,     0,  -279,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -279,     0,     0,     0,     0,     0,  -279,     0,
+       0,  -279,  -279,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -279,     0,     0,  -279,     0,  -279,  -279,
+       0,     0,     0,  -279,     0,  -279,  -279,     0,  -279,  -279,
+    -279,     0,     0,     0,     0,     0,     0,  -279,     0,  -279,
+       0,  -279,  -279,     0,     0,     0,  -279,  -279,  -279,     0,
+       0,     0,     0,     0,     0,     0,  -279,     0,     0,  -279,
+    -279,     0,     0,  -279,  -279,  -279,  -279,     0,  -279,     0,
+       0,     0,  -279,     0,     0,  -279,  -279,     0,  -279,  -279,
+       0,     0,     0,  -279,  -279,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -279,
+    -279,  -279,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -279,  -279,  -279,  -279,  -279,     0,     0,  -279,
+    -279,     0,  -279,  -279,  -279,  -279,  -279,  -279,  -225,  -279,
+    -279,  -225,  -279,     0,  -279,  -279,     0,  -225,     0,     0,
+       0,     0,     0,     0,     0,  -225,     0,     0,     0,     0,
+       0,     0,     0,     0,  -225,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -225,     0,     0,     0,     0,     0,  -225,
+       0,     0,  -225,  -225,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -225,     0,     0,  -225,     0,  -225,
+    -225,     0,     0,     0,  -225,     0,  -225,  -225,     0,  -225,
+    -225,  -225,     0,     0,     0,     0,     0,     0,  -225,     0,
+    -225,     0,  -225,  -225,     0,     0,     0,  -225,  -225,  -225,
+       0,     0,     0,     0,     0,     0,     0,  -225,     0,     0,
+    -225,  -225,     0,     0,  -225,  -225,  -225,  -225,     0,  -225,
+       0,     0,     0,  -225,     0,     0,  -225,  -225,     0,  -225,
+    -225,     0,     0,     0,  -225,  -225,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -225,  -225,  -225,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -225,  -225,  -225,  -225,  -225,     0,     0,
+    -225,  -225,     0,  -225,  -225,  -225,  -225,  -225,  -225,  -198,
+    -225,  -225,  -198,  -225,     0,  -225,  -225,     0,  -198,     0,
+       0,     0,     0,     0,     0,     0,  -198,     0,     0,     0,
+       0,     0,     0,     0,     0,  -198,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -198,     0,     0,     0,     0,     0,
+    -198,     0,     0,  -198,  -198,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -198,     0,     0,  -198,     0,
+    -198,  -198,     0,     0,     0,  -198,     0,  -198,  -198,     0,
+    -198,  -198,  -198,     0,     0,     0,     0,     0,     0,  -198,
+       0,  -198,     0,  -198,  -198,     0,     0,     0,  -198,  -198,
+    -198,     0,     0,     0,     0,     0,     0,     0,  -198,     0,
+       0,  -198,  -198,     0,     0,  -198,  -198,  -198,  -198,     0,
+    -198,     0,     0,     0,  -198,     0,     0,  -198,  -198,     0,
+    -198,  -198,     0,     0,     0,  -198,  -198,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -198,  -198,  -198,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -198,  -198,  -198,  -198,  -198,     0,
+       0,  -198,  -198,     0,  -198,  -198,  -198,  -198,  -198,  -198,
+    -188,  -198,  -198,  -188,  -198,     0,  -198,  -198,     0,  -188,
+       0,     0,     0,     0,     0,     0,     0,  -188,     0,     0,
+       0,     0,     0,     0,     0,     0,  -188,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -188,     0,     0,     0,     0,
+       0,  -188,     0,     0,  -188,  -188,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -188,     0,     0,  -188,
+       0,  -188,  -188,     0,     0,     0,  -188,     0,  -188,  -188,
+       0,  -188,  -188,  -188,     0,     0,     0,     0,     0,     0,
+    -188,     0,  -188,     0,  -188,  -188,     0,     0,     0,  -188,
+    -188,  -188,     0,     0,     0,     0,     0,     0,     0,  -188,
+       0,     0,  -188,  -188,     0,     0,  -188,  -188,  -188,  -188,
+       0,  -188,     0,     0,     0,  -188,     0,     0,  -188,  -188,
+       0,  -188,  -188,     0,     0,     0,  -188,  -188,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -188,  -188,  -188,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -188,  -188,  -188,  -188,  -188,
+       0,     0,  -188,  -188,     0,  -188,  -188,  -188,  -188,  -188,
+    -188,  -204,  -188,  -188,  -204,  -188,     0,  -188,  -188,     0,
+    -204,     0,     0,     0,     0,     0,     0,     0,  -204,     0,
+       0,     0,     0,     0,     0,     0,     0,  -204,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -204,     0,     0,     0,
+       0,     0,  -204,     0,     0,  -204,  -204,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -204,     0,     0,
+    -204,     0,  -204,  -204,     0,     0,     0,  -204,     0,  -204,
+    -204,     0,  -204,  -204,  -204,     0,     0,     0,     0,     0,
+       0,  -204,     0,  -204,     0,  -204,  -204,     0,     0,     0,
+    -204,  -204,  -204,     0,     0,     0,     0,     0,     0,     0,
+    -204,     0,     0,  -204,  -204,     0,     0,  -204,  -204,  -204,
+    -204,     0,  -204,     0,     0,     0,  -204,     0,     0,  -204,
+    -204,     0,  -204,  -204,     0,     0,     0,  -204,  -204,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -204,  -204,  -204,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -204,  -204,  -204,  -204,
+    -204,     0,     0,  -204,  -204,     0,  -204,  -204,  -204,  -204,
+    -204,  -204,  -216,  -204,  -204,  -216,  -204,     0,  -204,  -204,
+       0,  -216,     0,     0,     0,     0,     0,     0,     0,  -216,
+       0,     0,     0,     0,     0,     0,     0,     0,  -216,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -216,     0,     0,
+       0,     0,     0,  -216,     0,     0,  -216,  -216,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -216,     0,
+       0,  -216,     0,  -216,  -216,     0,     0,     0,  -216,     0,
+    -216,  -216,     0,  -216,  -216,  -216,     0,     0,     0,     0,
+       0,     0,  -216,     0,  -216,     0,  -216,  -216,     0,     0,
+       0,  -216,  -216,  -216,     0,     0,     0,     0,     0,     0,
+       0,  -216,     0,     0,  -216,  -216,     0,     0,  -216,  -216,
+    -216,  -216,     0,  -216,     0,     0,     0,  -216,     0,     0,
+    -216,  -216,     0,  -216,  -216,     0,     0,     0,  -216,  -216,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -216,  -216,  -216,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -216,  -216,  -216,
+    -216,  -216,     0,     0,  -216,  -216,     0,  -216,  -216,  -216,
+    -216,  -216,  -216,  -208,   331,  -216,  -208,  -216,     0,  -216,
+    -216,     0,  -208,     0,     0,     0,     0,     0,     0,     0,
+    -208,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -208,     0,
+       0,     0,     0,     0,  -208,     0,     0,  -208,  -208,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
+       0,     0,  -208,     0,  -208,  -208,     0,     0,     0,  -208,
+       0,  -208,  -208,     0,  -208,  -208,  -208,     0,     0,     0,
+       0,     0,     0,  -208,     0,  -208,     0,  -208,  -208,     0,
+       0,     0,  -208,  -208,  -208,     0,     0,     0,     0,     0,
+       0,     0,  -208,     0,     0,  -208,  -208,     0,     0,  -208,
+    -208,  -208,  -208,     0,  -208,     0,     0,     0,  -208,     0,
+       0,  -208,  -208,     0,  -208,  -208,     0,     0,     0,   316,
+    -208,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -208,  -208,  -208,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -208,  -208,
+    -208,  -208,  -208,     0,     0,  -208,  -208,     0,  -208,  -208,
+     327,   328,   329,   330,  -207,   331,  -208,  -207,  -208,     0,
+    -208,  -208,     0,  -207,     0,     0,     0,     0,     0,     0,
+       0,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
+       0,     0,     0,     0,     0,  -207,     0,     0,  -207,  -207,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,     0,     0,  -207,     0,  -207,  -207,     0,     0,     0,
+    -207,     0,  -207,  -207,     0,  -207,  -207,  -207,     0,     0,
+       0,     0,     0,     0,  -207,     0,  -207,     0,  -207,  -207,
+       0,     0,     0,  -207,  -207,  -207,     0,     0,     0,     0,
+       0,     0,     0,  -207,     0,     0,  -207,  -207,     0,     0,
+    -207,  -207,  -207,  -207,     0,  -207,     0,     0,     0,  -207,
+       0,     0,  -207,  -207,     0,  -207,  -207,     0,     0,     0,
+     316,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -207,  -207,  -207,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
+    -207,  -207,  -207,  -207,     0,     0,  -207,  -207,     0,  -207,
+    -207,   327,   328,   329,   330,  -210,   331,  -207,  -210,  -207,
+       0,  -207,  -207,     0,  -210,     0,     0,     0,     0,     0,
+       0,     0,  -210,     0,     0,     0,     0,     0,     0,     0,
+       0,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -210,     0,     0,     0,     0,     0,  -210,     0,     0,  -210,
+    -210,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -210,     0,     0,  -210,     0,  -210,  -210,     0,     0,
+       0,  -210,     0,  -210,  -210,     0,  -210,  -210,  -210,     0,
+       0,     0,     0,     0,     0,  -210,     0,  -210,     0,  -210,
+    -210,     0,     0,     0,  -210,  -210,  -210,     0,     0,     0,
+       0,     0,     0,     0,  -210,     0,     0,  -210,  -210,     0,
+       0,  -210,  -210,  -210,  -210,     0,  -210,     0,     0,     0,
+    -210,     0,     0,  -210,  -210,     0,  -210,  -210,     0,     0,
+       0,   316,  -210,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -210,  -210,  -210,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -210,  -210,  -210,  -210,  -210,     0,     0,  -210,  -210,     0,
+    -210,  -210,  -210,  -210,  -210,   330,  -209,   331,  -210,  -209,
+    -210,     0,  -210,  -210,     0,  -209,     0,     0,     0,     0,
+       0,     0,     0,  -209,     0,     0,     0,     0,     0,     0,
+       0,     0,  -209,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -209,     0,     0,     0,     0,     0,  -209,     0,     0,
+    -209,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -209,     0,     0,  -209,     0,  -209,  -209,     0,
+       0,     0,  -209,     0,  -209,  -209,     0,  -209,  -209,  -209,
+       0,     0,     0,     0,     0,     0,  -209,     0,  -209,     0,
+    -209,  -209,     0,     0,     0,  -209,  -209,  -209,     0,     0,
+       0,     0,     0,     0,     0,  -209,     0,     0,  -209,  -209,
+       0,     0,  -209,  -209,  -209,  -209,     0,  -209,     0,     0,
+       0,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,     0,
+       0,     0,   316,  -209,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -209,  -209,
+    -209,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -209,  -209,  -209,  -209,  -209,     0,     0,  -209,  -209,
+       0,  -209,  -209,  -209,  -209,  -209,   330,  -211,   331,  -209,
+    -211,  -209,     0,  -209,  -209,     0,  -211,     0,     0,     0,
+       0,     0,     0,     0,  -211,     0,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -211,     0,     0,     0,     0,     0,  -211,     0,
+       0,  -211,  -211,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,  -211,     0,  -211,  -211,
+       0,     0,     0,  -211,     0,  -211,  -211,     0,  -211,  -211,
+    -211,     0,     0,     0,     0,     0,     0,  -211,     0,  -211,
+       0,  -211,  -211,     0,     0,     0,  -211,  -211,  -211,     0,
+       0,     0,     0,     0,     0,     0,  -211,     0,     0,  -211,
+    -211,     0,     0,  -211,  -211,  -211,  -211,     0,  -211,     0,
+       0,     0,  -211,     0,     0,  -211,  -211,     0,  -211,  -211,
+       0,     0,     0,   316,  -211,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -211,
+    -211,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -211,  -211,  -211,  -211,  -211,     0,     0,  -211,
+    -211,     0,  -211,  -211,  -211,  -211,  -211,   330,  -212,   331,
+    -211,  -212,  -211,     0,  -211,  -211,     0,  -212,     0,     0,
+       0,     0,     0,     0,     0,  -212,     0,     0,     0,     0,
+       0,     0,     0,     0,  -212,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,     0,     0,     0,     0,     0,  -212,
+       0,     0,  -212,  -212,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -212,     0,     0,  -212,     0,  -212,
+    -212,     0,     0,     0,  -212,     0,  -212,  -212,     0,  -212,
+    -212,  -212,     0,     0,     0,     0,     0,     0,  -212,     0,
+    -212,     0,  -212,  -212,     0,     0,     0,  -212,  -212,  -212,
+       0,     0,     0,     0,     0,     0,     0,  -212,     0,     0,
+    -212,  -212,     0,     0,  -212,  -212,  -212,  -212,     0,  -212,
+       0,     0,     0,  -212,     0,     0,  -212,  -212,     0,  -212,
+    -212,     0,     0,     0,   316,  -212,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -212,  -212,  -212,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,  -212,  -212,  -212,  -212,     0,     0,
+    -212,  -212,     0,  -212,  -212,  -212,  -212,  -212,  -212,  -238,
+     331,  -212,  -238,  -212,     0,  -212,  -212,     0,  -238,     0,
+       0,     0,     0,     0,     0,     0,  -238,     0,     0,     0,
+       0,     0,     0,     0,     0,  -238,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -238,     0,     0,     0,     0,     0,
+    -238,     0,     0,  -238,  -238,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -238,     0,     0,  -238,     0,
+    -238,  -238,     0,     0,     0,  -238,     0,  -238,  -238,     0,
+    -238,  -238,  -238,     0,     0,     0,     0,     0,     0,  -238,
+       0,  -238,     0,  -238,  -238,     0,     0,     0,  -238,  -238,
+    -238,     0,     0,     0,     0,     0,     0,     0,  -238,     0,
+       0,  -238,  -238,     0,     0,  -238,  -238,  -238,  -238,     0,
+    -238,     0,     0,     0,  -238,     0,     0,  -238,  -238,     0,
+    -238,  -238,     0,     0,     0,  -238,  -238,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -238,  -238,  -238,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -238,  -238,  -238,  -238,  -238,     0,
+       0,  -238,  -238,     0,  -238,  -238,  -238,  -238,  -238,  -238,
+    -223,  -238,  -238,  -223,  -238,     0,  -238,  -238,     0,  -223,
+       0,     0,     0,     0,     0,     0,     0,  -223,     0,     0,
+       0,     0,     0,     0,     0,     0,  -223,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -223,     0,     0,     0,     0,
+       0,  -223,     0,     0,  -223,  -223,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -223,     0,     0,  -223,
+       0,  -223,  -223,     0,     0,     0,  -223,     0,  -223,  -223,
+       0,  -223,  -223,  -223,     0,     0,     0,     0,     0,     0,
+    -223,     0,  -223,     0,  -223,  -223,     0,     0,     0,  -223,
+    -223,  -223,     0,     0,     0,     0,     0,     0,     0,  -223,
+       0,     0,  -223,  -223,     0,     0,  -223,  -223,  -223,  -223,
+       0,  -223,     0,     0,     0,  -223,     0,     0,  -223,  -223,
+       0,  -223,  -223,     0,     0,     0,  -223,  -223,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -223,  -223,  -223,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -223,  -223,  -223,  -223,  -223,
+       0,     0,  -223,  -223,     0,  -223,  -223,  -223,  -223,  -223,
+    -223,  -273,  -223,  -223,  -273,  -223,     0,  -223,  -223,     0,
+    -273,     0,     0,     0,     0,     0,     0,     0,  -273,     0,
+       0,     0,     0,     0,     0,     0,     0,  -273,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -273,     0,     0,     0,
+       0,     0,  -273,     0,     0,  -273,  -273,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -273,     0,     0,
+    -273,     0,  -273,  -273,     0,     0,     0,  -273,     0,  -273,
+    -273,     0,  -273,  -273,  -273,     0,     0,     0,     0,     0,
+       0,  -273,     0,  -273,     0,  -273,  -273,     0,     0,     0,
+    -273,  -273,  -273,     0,     0,     0,     0,     0,     0,     0,
+    -273,     0,     0,  -273,  -273,     0,     0,  -273,  -273,  -273,
+    -273,     0,  -273,     0,     0,     0,  -273,     0,     0,  -273,
+    -273,     0,  -273,  -273,     0,     0,     0,  -273,  -273,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -273,  -273,  -273,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -273,  -273,  -273,  -273,
+    -273,     0,     0,  -273,  -273,     0,  -273,  -273,  -273,  -273,
+    -273,  -273,  -205,  -273,  -273,  -205,  -273,     0,  -273,  -273,
+       0,  -205,     0,     0,     0,     0,     0,     0,     0,  -205,
+       0,     0,     0,     0,     0,     0,     0,     0,  -205,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -205,     0,     0,
+       0,     0,     0,  -205,     0,     0,  -205,  -205,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -205,     0,
+       0,  -205,     0,  -205,  -205,     0,     0,     0,  -205,     0,
+    -205,  -205,     0,  -205,  -205,  -205,     0,     0,     0,     0,
+       0,     0,  -205,     0,  -205,     0,  -205,  -205,     0,     0,
+       0,  -205,  -205,  -205,     0,     0,     0,     0,     0,     0,
+       0,  -205,     0,     0,  -205,  -205,     0,     0,  -205,  -205,
+    -205,  -205,     0,  -205,     0,     0,     0,  -205,     0,     0,
+    -205,  -205,     0,  -205,  -205,     0,     0,     0,  -205,  -205,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -205,  -205,  -205,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -205,  -205,  -205,
+    -205,  -205,     0,     0,  -205,  -205,     0,  -205,  -205,  -205,
+    -205,  -205,  -205,  -274,  -205,  -205,  -274,  -205,     0,  -205,
+    -205,     0,  -274,     0,     0,     0,     0,     0,     0,     0,
+    -274,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -274,     0,
+       0,     0,     0,     0,  -274,     0,     0,  -274,  -274,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -274,
+       0,     0,  -274,     0,  -274,  -274,     0,     0,     0,  -274,
+       0,  -274,  -274,     0,  -274,  -274,  -274,     0,     0,     0,
+       0,     0,     0,  -274,     0,  -274,     0,  -274,  -274,     0,
+       0,     0,  -274,  -274,  -274,     0,     0,     0,     0,     0,
+       0,     0,  -274,     0,     0,  -274,  -274,     0,     0,  -274,
+    -274,  -274,  -274,     0,  -274,     0,     0,     0,  -274,     0,
+       0,  -274,  -274,     0,  -274,  -274,     0,     0,     0,  -274,
+    -274,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -274,  -274,  -274,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -274,  -274,
+    -274,  -274,  -274,     0,     0,  -274,  -274,     0,  -274,  -274,
+    -274,  -274,  -274,  -274,  -226,  -274,  -274,  -226,  -274,     0,
+    -274,  -274,     0,  -226,     0,     0,     0,     0,     0,     0,
+       0,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
+    -226,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -226,
+       0,     0,     0,     0,     0,  -226,     0,     0,  -226,  -226,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -226,     0,     0,  -226,     0,  -226,  -226,     0,     0,     0,
+    -226,     0,  -226,  -226,     0,  -226,  -226,  -226,     0,     0,
+       0,     0,     0,     0,  -226,     0,  -226,     0,  -226,  -226,
+       0,     0,     0,  -226,  -226,  -226,     0,     0,     0,     0,
+       0,     0,     0,  -226,     0,     0,  -226,  -226,     0,     0,
+    -226,  -226,  -226,  -226,     0,  -226,     0,     0,     0,  -226,
+       0,     0,  -226,  -226,     0,  -226,  -226,     0,     0,     0,
+    -226,  -226,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -226,  -226,  -226,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -226,
+    -226,  -226,  -226,  -226,     0,     0,  -226,  -226,     0,  -226,
+    -226,  -226,  -226,  -226,  -226,  -239,  -226,  -226,  -239,  -226,
+       0,  -226,  -226,     0,  -239,     0,     0,     0,     0,     0,
+       0,     0,  -239,     0,     0,     0,     0,     0,     0,     0,
+       0,  -239,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -239,     0,     0,     0,     0,     0,  -239,     0,     0,  -239,
+    -239,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -239,     0,     0,  -239,     0,  -239,  -239,     0,     0,
+       0,  -239,     0,  -239,  -239,     0,  -239,  -239,  -239,     0,
+       0,     0,     0,     0,     0,  -239,     0,  -239,     0,  -239,
+    -239,     0,     0,     0,  -239,  -239,  -239,     0,     0,     0,
+       0,     0,     0,     0,  -239,     0,     0,  -239,  -239,     0,
+       0,  -239,  -239,  -239,  -239,     0,  -239,     0,     0,     0,
+    -239,     0,     0,  -239,  -239,     0,  -239,  -239,     0,     0,
+       0,  -239,  -239,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -239,  -239,  -239,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -239,  -239,  -239,  -239,  -239,     0,     0,  -239,  -239,     0,
+    -239,  -239,  -239,  -239,  -239,  -239,  -240,  -239,  -239,  -240,
+    -239,     0,  -239,  -239,     0,  -240,     0,     0,     0,     0,
+       0,     0,     0,  -240,     0,     0,     0,     0,     0,     0,
+       0,     0,  -240,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -240,     0,     0,     0,     0,     0,  -240,     0,     0,
+    -240,  -240,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -240,     0,     0,  -240,     0,  -240,  -240,     0,
+       0,     0,  -240,     0,  -240,  -240,     0,  -240,  -240,  -240,
+       0,     0,     0,     0,     0,     0,  -240,     0,  -240,     0,
+    -240,  -240,     0,     0,     0,  -240,  -240,  -240,     0,     0,
+       0,     0,     0,     0,     0,  -240,     0,     0,  -240,  -240,
+       0,     0,  -240,  -240,  -240,  -240,     0,  -240,     0,     0,
+       0,  -240,     0,     0,  -240,  -240,     0,  -240,  -240,     0,
+       0,     0,  -240,  -240,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -240,  -240,
+    -240,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -240,  -240,  -240,  -240,  -240,     0,     0,  -240,  -240,
+       0,  -240,  -240,  -240,  -240,  -240,  -240,  -257,  -240,  -240,
+    -257,  -240,     0,  -240,  -240,     0,  -257,     0,     0,     0,
+       0,     0,     0,     0,  -257,     0,     0,     0,     0,     0,
+       0,     0,     0,  -257,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -257,     0,     0,     0,     0,     0,  -257,     0,
+       0,  -257,  -257,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -257,     0,     0,  -257,     0,  -257,  -257,
+       0,     0,     0,  -257,     0,  -257,  -257,     0,  -257,  -257,
+    -257,     0,     0,     0,     0,     0,     0,  -257,     0,  -257,
+       0,  -257,  -257,     0,     0,     0,  -257,  -257,  -257,     0,
+       0,     0,     0,     0,     0,     0,  -257,     0,     0,  -257,
+    -257,     0,     0,  -257,  -257,  -257,  -257,     0,  -257,     0,
+       0,     0,  -257,     0,     0,  -257,  -257,     0,  -257,  -257,
+       0,     0,     0,  -257,  -257,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -257,
+    -257,  -257,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -257,  -257,  -257,  -257,  -257,     0,     0,  -257,
+    -257,     0,  -257,  -257,  -257,  -257,  -257,  -257,  -258,  -257,
+    -257,  -258,  -257,     0,  -257,  -257,     0,  -258,     0,     0,
+       0,     0,     0,     0,     0,  -258,     0,     0,     0,     0,
+       0,     0,     0,     0,  -258,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -258,     0,     0,     0,     0,     0,  -258,
+       0,     0,  -258,  -258,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -258,     0,     0,  -258,     0,  -258,
+    -258,     0,     0,     0,  -258,     0,  -258,  -258,     0,  -258,
+    -258,  -258,     0,     0,     0,     0,     0,     0,  -258,     0,
+    -258,     0,  -258,  -258,     0,     0,     0,  -258,  -258,  -258,
+       0,     0,     0,     0,     0,     0,     0,  -258,     0,     0,
+    -258,  -258,     0,     0,  -258,  -258,  -258,  -258,     0,  -258,
+       0,     0,     0,  -258,     0,     0,  -258,  -258,     0,  -258,
+    -258,     0,     0,     0,  -258,  -258,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -258,  -258,  -258,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -258,  -258,  -258,  -258,  -258,     0,     0,
+    -258,  -258,     0,  -258,  -258,  -258,  -258,  -258,  -258,  -224,
+    -258,  -258,  -224,  -258,     0,  -258,  -258,     0,  -224,     0,
+       0,     0,     0,     0,     0,     0,  -224,     0,     0,     0,
+       0,     0,     0,     0,     0,  -224,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -224,     0,     0,     0,     0,     0,
+    -224,     0,     0,  -224,  -224,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -224,     0,     0,  -224,     0,
+    -224,  -224,     0,     0,     0,  -224,     0,  -224,  -224,     0,
+    -224,  -224,  -224,     0,     0,     0,     0,     0,     0,  -224,
+       0,  -224,     0,  -224,  -224,     0,     0,     0,  -224,  -224,
+    -224,     0,     0,     0,     0,     0,     0,     0,  -224,     0,
+       0,  -224,  -224,     0,     0,  -224,  -224,  -224,  -224,     0,
+    -224,     0,     0,     0,  -224,     0,     0,  -224,  -224,     0,
+    -224,  -224,     0,     0,     0,  -224,  -224,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -224,  -224,  -224,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -224,  -224,  -224,  -224,  -224,     0,
+       0,  -224,  -224,     0,  -224,  -224,  -224,  -224,  -224,  -224,
+    -241,  -224,  -224,  -241,  -224,     0,  -224,  -224,     0,  -241,
+       0,     0,     0,     0,     0,     0,     0,  -241,     0,     0,
+       0,     0,     0,     0,     0,     0,  -241,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -241,     0,     0,     0,     0,
+       0,  -241,     0,     0,  -241,  -241,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -241,     0,     0,  -241,
+       0,  -241,  -241,     0,     0,     0,  -241,     0,  -241,  -241,
+       0,  -241,  -241,  -241,     0,     0,     0,     0,     0,     0,
+    -241,     0,  -241,     0,  -241,  -241,     0,     0,     0,  -241,
+    -241,  -241,     0,     0,     0,     0,     0,     0,     0,  -241,
+       0,     0,  -241,  -241,     0,     0,  -241,  -241,  -241,  -241,
+       0,  -241,     0,     0,     0,  -241,     0,     0,  -241,  -241,
+       0,  -241,  -241,     0,     0,     0,  -241,  -241,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -241,  -241,  -241,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -241,  -241,  -241,  -241,  -241,
+       0,     0,  -241,  -241,     0,  -241,  -241,  -241,  -241,  -241,
+    -241,  -242,  -241,  -241,  -242,  -241,     0,  -241,  -241,     0,
+    -242,     0,     0,     0,     0,     0,     0,     0,  -242,     0,
+       0,     0,     0,     0,     0,     0,     0,  -242,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -242,     0,     0,     0,
+       0,     0,  -242,     0,     0,  -242,  -242,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -242,     0,     0,
+    -242,     0,  -242,  -242,     0,     0,     0,  -242,     0,  -242,
+    -242,     0,  -242,  -242,  -242,     0,     0,     0,     0,     0,
+       0,  -242,     0,  -242,     0,  -242,  -242,     0,     0,     0,
+    -242,  -242,  -242,     0,     0,     0,     0,     0,     0,     0,
+    -242,     0,     0,  -242,  -242,     0,     0,  -242,  -242,  -242,
+    -242,     0,  -242,     0,     0,     0,  -242,     0,     0,  -242,
+    -242,     0,  -242,  -242,     0,     0,     0,  -242,  -242,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -275,
+       0,     0,  -275,  -242,  -242,  -242,     0,     0,  -275,     0,
+       0,     0,     0,     0,     0,     0,  -242,  -242,  -242,  -242,
+    -242,     0,     0,  -242,  -242,  -275,  -242,  -242,  -242,  -242,
+    -242,  -242,     0,  -242,  -242,     0,  -242,     0,  -242,  -242,
+       0,     0,     0,     0,  -275,     0,     0,     0,     0,     0,
+    -275,  -151,     0,   311,  -275,     0,     0,     0,     0,     0,
+    -151,     0,     0,     0,     0,  -275,     0,     0,  -275,     0,
+    -275,  -275,     0,     0,     0,  -275,     0,  -275,  -275,     0,
+    -275,  -275,  -275,     0,     0,     0,     0,     0,     0,  -275,
+       0,  -275,     0,  -275,  -275,     0,  -151,     0,  -275,  -275,
+     312,     0,     0,     0,     0,     0,  -151,     0,  -275,     0,
+       0,  -275,  -275,     0,     0,  -275,  -275,  -275,  -275,     0,
+     414,     0,     0,  -151,  -275,     0,     0,  -151,   315,     0,
+    -275,  -275,  -151,     0,     0,   316,   317,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -275,  -275,  -275,  -151,     0,     0,   308,     0,     0,
+    -151,     0,     0,     0,   318,   319,   320,   321,   322,     0,
+       0,   323,   324,   309,   325,   326,   327,   328,   329,   330,
+    -234,   331,  -275,  -234,  -275,     0,  -275,  -275,     0,  -234,
+       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
+       0,     0,     0,     0,     0,     0,  -234,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -234,     0,     0,     0,     0,
+       0,  -234,     0,     0,   311,  -234,  -151,     0,  -151,     0,
+       0,     0,     0,     0,     0,     0,  -234,     0,     0,  -234,
+       0,  -234,  -234,     0,     0,     0,  -234,     0,  -234,  -234,
+       0,  -234,  -234,  -234,     0,     0,     0,     0,     0,     0,
+    -234,     0,  -234,     0,  -234,  -234,     0,     0,     0,  -234,
+    -234,  -234,  -150,     0,     0,     0,     0,     0,     0,  -234,
+       0,  -150,  -234,  -234,     0,     0,  -234,  -234,  -234,  -234,
+       0,  -234,     0,     0,     0,  -234,     0,     0,  -234,   315,
+       0,  -234,  -234,     0,     0,     0,   316,  -234,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -150,     0,     0,
+       0,     0,     0,     0,     0,     0,  -235,  -150,     0,  -235,
+       0,     0,  -234,  -234,  -234,  -235,     0,     0,     0,     0,
+       0,   544,     0,  -235,  -150,  -234,  -234,  -234,  -150,     0,
+       0,     0,  -235,  -150,     0,   325,   326,   327,   328,   329,
+     330,     0,   331,  -234,     0,  -234,     0,  -234,  -234,     0,
+       0,  -235,     0,     0,     0,     0,     0,  -235,     0,     0,
+     311,  -235,     0,     0,     0,  -150,     0,     0,     0,     0,
+       0,  -150,  -235,     0,     0,  -235,     0,  -235,  -235,     0,
+       0,     0,  -235,     0,  -235,  -235,     0,  -235,  -235,  -235,
+       0,     0,     0,     0,     0,     0,  -235,     0,  -235,     0,
+    -235,  -235,     0,     0,     0,  -235,  -235,  -235,     0,     0,
+       0,     0,     0,     0,     0,  -235,     0,     0,  -235,  -235,
+       0,     0,  -235,  -235,  -235,  -235,     0,  -235,     0,     0,
+       0,  -235,     0,     0,  -235,   315,     0,  -235,  -235,     0,
+       0,     0,   316,  -235,     0,     0,     0,  -150,     0,  -150,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -236,     0,     0,  -236,     0,     0,  -235,  -235,
+    -235,  -236,     0,     0,     0,     0,     0,     0,     0,  -236,
+       0,  -235,  -235,  -235,     0,     0,     0,     0,  -236,     0,
+       0,   325,   326,   327,   328,   329,   330,     0,   331,  -235,
+       0,  -235,     0,  -235,  -235,     0,     0,  -236,     0,     0,
+       0,     0,     0,  -236,     0,     0,   311,  -236,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -236,     0,
+       0,  -236,     0,  -236,  -236,     0,     0,     0,  -236,     0,
+    -236,  -236,     0,  -236,  -236,  -236,     0,     0,     0,     0,
+       0,     0,  -236,     0,  -236,     0,  -236,  -236,     0,     0,
+       0,  -236,  -236,  -236,     0,     0,     0,     0,     0,     0,
+       0,  -236,     0,     0,  -236,  -236,     0,     0,  -236,  -236,
+    -236,  -236,     0,  -236,     0,     0,     0,  -236,     0,     0,
+    -236,   315,     0,  -236,  -236,     0,     0,     0,   316,  -236,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -237,     0,
+       0,  -237,     0,     0,  -236,  -236,  -236,  -237,     0,     0,
+       0,     0,     0,     0,     0,  -237,     0,  -236,  -236,  -236,
+       0,     0,     0,     0,  -237,     0,     0,   325,   326,   327,
+     328,   329,   330,     0,   331,  -236,     0,  -236,     0,  -236,
+    -236,     0,     0,  -237,     0,     0,     0,     0,     0,  -237,
+       0,     0,   311,  -237,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -237,     0,     0,  -237,     0,  -237,
+    -237,     0,     0,     0,  -237,     0,  -237,  -237,     0,  -237,
+    -237,  -237,     0,     0,     0,     0,     0,     0,  -237,     0,
+    -237,     0,  -237,  -237,     0,     0,     0,  -237,  -237,  -237,
+       0,     0,     0,     0,     0,     0,     0,  -237,     0,     0,
+    -237,  -237,     0,     0,  -237,  -237,  -237,  -237,     0,  -237,
+       0,     0,     0,  -237,     0,     0,  -237,   315,     0,  -237,
+    -237,     0,     0,     0,   316,  -237,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -213,     0,     0,  -213,     0,     0,
+    -237,  -237,  -237,  -213,     0,     0,     0,     0,     0,     0,
+       0,  -213,     0,  -237,  -237,  -237,     0,     0,     0,     0,
+    -213,     0,     0,   325,   326,   327,   328,   329,   330,     0,
+     331,  -237,     0,  -237,     0,  -237,  -237,     0,     0,  -213,
+       0,     0,     0,     0,     0,  -213,     0,     0,   311,  -213,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -213,     0,     0,  -213,     0,  -213,  -213,     0,     0,     0,
+    -213,     0,  -213,  -213,     0,  -213,  -213,  -213,     0,     0,
+       0,     0,     0,  -131,  -213,     0,  -213,     0,  -213,  -213,
+       0,     0,  -131,  -213,  -213,     0,     0,     0,     0,     0,
+       0,     0,     0,  -213,     0,     0,  -213,  -213,     0,     0,
+    -213,  -213,  -213,  -213,     0,  -213,     0,     0,     0,  -213,
+       0,     0,  -213,   315,     0,  -213,  -213,     0,  -131,     0,
+     316,     0,     0,     0,     0,     0,     0,     0,  -131,     0,
+       0,  -131,     0,  -215,     0,     0,  -215,     0,     0,     0,
+       0,     0,  -215,     0,     0,  -131,  -213,  -213,  -213,  -131,
+    -215,     0,     0,     0,  -131,     0,     0,     0,     0,  -215,
+       0,     0,   321,   322,     0,     0,   323,   324,     0,   325,
+     326,   327,   328,   329,   330,     0,   331,  -213,  -215,  -213,
+       0,  -213,  -213,     0,  -215,     0,  -131,   311,  -215,     0,
+       0,     0,  -131,     0,     0,     0,     0,     0,     0,  -215,
+       0,     0,  -215,     0,  -215,  -215,  -131,     0,     0,  -215,
+       0,  -215,  -215,     0,  -215,  -215,  -215,     0,     0,     0,
+       0,     0,     0,  -215,     0,  -215,     0,  -215,  -215,     0,
+       0,     0,  -215,  -215,     0,     0,     0,     0,     0,     0,
+       0,     0,  -215,     0,     0,  -215,  -215,     0,     0,  -215,
+    -215,  -215,  -215,     0,  -215,     0,     0,     0,  -215,     0,
+       0,  -215,   315,     0,  -215,  -215,     0,  -131,  -131,   316,
+    -131,  -131,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -231,     0,     0,  -231,     0,     0,     0,     0,
+       0,  -231,     0,     0,     0,  -215,  -215,  -215,     0,  -231,
+       0,     0,     0,     0,     0,     0,     0,     0,  -231,     0,
+       0,   321,   322,     0,     0,   323,   324,     0,   325,   326,
+     327,   328,   329,   330,     0,   331,  -215,  -231,  -215,     0,
+    -215,  -215,     0,  -231,     0,     0,   311,  -231,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -231,     0,
+       0,  -231,     0,  -231,  -231,     0,     0,     0,  -231,     0,
+    -231,  -231,     0,  -231,  -231,  -231,     0,     0,     0,     0,
+       0,  -130,  -231,     0,  -231,     0,  -231,  -231,     0,     0,
+    -130,  -231,  -231,     0,     0,     0,     0,     0,     0,     0,
+       0,  -231,     0,     0,  -231,  -231,     0,     0,  -231,  -231,
+    -231,  -231,     0,  -231,     0,     0,     0,  -231,     0,     0,
+    -231,   315,     0,  -231,  -231,     0,  -130,     0,   316,     0,
+       0,     0,     0,     0,     0,     0,  -130,     0,     0,  -130,
+       0,  -232,     0,     0,  -232,     0,     0,     0,     0,     0,
+    -232,     0,     0,  -130,  -231,  -231,  -231,  -130,  -232,     0,
+       0,     0,  -130,     0,     0,     0,     0,  -232,     0,     0,
+     321,   322,     0,     0,   323,   324,     0,   325,   326,   327,
+     328,   329,   330,     0,   331,  -231,  -232,  -231,     0,  -231,
+    -231,     0,  -232,     0,  -130,   311,  -232,     0,     0,     0,
+    -130,     0,     0,     0,     0,     0,     0,  -232,     0,     0,
+    -232,     0,  -232,  -232,  -130,     0,     0,  -232,     0,  -232,
+    -232,     0,  -232,  -232,  -232,     0,     0,     0,     0,     0,
+       0,  -232,     0,  -232,     0,  -232,  -232,     0,     0,     0,
+    -232,  -232,     0,     0,     0,     0,     0,     0,     0,     0,
+    -232,     0,     0,  -232,  -232,     0,     0,  -232,  -232,  -232,
+    -232,     0,  -232,     0,     0,     0,  -232,     0,     0,  -232,
+     315,     0,  -232,  -232,     0,  -130,  -130,   316,  -130,  -130,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -233,     0,     0,  -233,     0,     0,     0,     0,     0,  -233,
+       0,     0,     0,  -232,  -232,  -232,     0,  -233,     0,     0,
+       0,     0,     0,     0,     0,     0,  -233,     0,     0,   321,
+     322,     0,     0,   323,   324,     0,   325,   326,   327,   328,
+     329,   330,     0,   331,  -232,  -233,  -232,     0,  -232,  -232,
+       0,  -233,     0,     0,   311,  -233,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -233,     0,     0,  -233,
+       0,  -233,  -233,     0,     0,     0,  -233,     0,  -233,  -233,
+       0,  -233,  -233,  -233,     0,     0,     0,     0,     0,     0,
+    -233,     0,  -233,     0,  -233,  -233,     0,     0,     0,  -233,
+    -233,     0,     0,     0,     0,     0,     0,     0,     0,  -233,
+       0,     0,  -233,  -233,     0,     0,  -233,  -233,  -233,  -233,
+       0,  -233,     0,     0,     0,  -233,     0,     0,  -233,   315,
+       0,  -233,  -233,     0,     0,     0,   316,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -214,
+       0,     0,  -214,     0,     0,     0,     0,     0,  -214,     0,
+       0,     0,  -233,  -233,  -233,     0,  -214,     0,     0,     0,
+       0,     0,     0,     0,     0,  -214,     0,     0,   321,   322,
+       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,     0,   331,  -233,  -214,  -233,     0,  -233,  -233,     0,
+    -214,     0,     0,   311,  -214,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -214,     0,     0,  -214,     0,
+    -214,  -214,     0,     0,     0,  -214,     0,  -214,  -214,     0,
+    -214,  -214,  -214,     0,     0,     0,     0,     0,     0,  -214,
+       0,  -214,     0,  -214,  -214,     0,     0,     0,  -214,  -214,
+       0,     0,     0,     0,     0,     0,     0,     0,  -214,     0,
+       0,  -214,  -214,     0,     0,  -214,  -214,  -214,  -214,     0,
+    -214,     0,     0,     0,  -214,     0,     0,  -214,   315,     0,
+    -214,  -214,     0,     0,     0,   316,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -185,     0,
+       0,  -185,     0,     0,     0,     0,  -147,  -185,     0,     0,
+       0,  -214,  -214,  -214,     0,  -147,     0,     0,     0,     0,
+       0,     0,     0,     0,  -185,     0,     0,   321,   322,     0,
        0,   323,   324,     0,   325,   326,   327,   328,   329,   330,
-       0,   331,  -355,  -355,     0,     0,  -355,  -355,     0,   325,
-     326,   327,   328,   329,   330,     0,   331
+       0,   331,  -214,  -185,  -214,     0,  -214,  -214,     0,  -185,
+       0,  -147,     0,  -185,     0,     0,     0,     0,     0,     0,
+       0,  -147,     0,     0,  -185,     0,     0,  -185,     0,  -185,
+    -185,     0,     0,     0,  -185,  -147,  -185,  -185,  -147,  -185,
+    -185,  -185,  -147,     0,     0,     0,     0,  -147,  -185,     0,
+    -185,     0,  -185,  -185,     0,     0,     0,  -185,  -185,     0,
+       0,     0,     0,     0,     0,     0,     0,  -185,     0,     0,
+    -185,  -185,     0,     0,  -185,  -185,  -185,  -185,     0,  -147,
+       0,     0,   308,  -185,     0,  -147,     0,     0,  -187,  -185,
+    -185,  -187,     0,     0,     0,     0,     0,  -187,   309,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -187,     0,     0,     0,     0,     0,
+    -185,  -185,  -185,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -187,     0,     0,     0,     0,     0,  -187,
+       0,     0,     0,  -187,     0,     0,     0,     0,     0,     0,
+       0,  -185,     0,  -185,  -187,  -185,  -185,  -187,     0,  -187,
+    -187,  -147,     0,  -147,  -187,     0,  -187,  -187,     0,  -187,
+    -187,  -187,     0,     0,     0,     0,     0,     0,  -187,     0,
+    -187,     0,  -187,  -187,     0,     0,     0,  -187,  -187,     0,
+       0,     0,     0,     0,     0,     0,     0,  -187,     0,     0,
+    -187,  -187,     0,     0,  -187,  -187,  -187,  -187,     0,     0,
+       0,     0,     0,  -187,     0,     0,     0,     0,  -186,  -187,
+    -187,  -186,     0,     0,     0,     0,     0,  -186,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -186,     0,     0,     0,     0,     0,
+    -187,  -187,  -187,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -186,     0,     0,     0,     0,     0,  -186,
+       0,     0,     0,  -186,     0,     0,     0,     0,     0,     0,
+       0,  -187,     0,  -187,  -186,  -187,  -187,  -186,     0,  -186,
+    -186,     0,     0,     0,  -186,     0,  -186,  -186,     0,  -186,
+    -186,  -186,     0,     0,     0,     0,     0,     0,  -186,     0,
+    -186,     0,  -186,  -186,     0,     0,     0,  -186,  -186,     0,
+       0,     0,     0,     0,     0,     0,     0,  -186,     0,     0,
+    -186,  -186,     0,     0,  -186,  -186,  -186,  -186,     0,     0,
+       0,     0,     0,  -186,     0,     0,     0,     0,  -184,  -186,
+    -186,  -184,     0,     0,     0,     0,     0,  -184,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -184,     0,     0,     0,     0,     0,
+    -186,  -186,  -186,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -184,     0,     0,     0,     0,     0,  -184,
+       0,     0,     0,  -184,     0,     0,     0,     0,     0,     0,
+       0,  -186,     0,  -186,  -184,  -186,  -186,  -184,     0,  -184,
+    -184,     0,     0,     0,  -184,     0,  -184,  -184,     0,  -184,
+    -184,  -184,     0,     0,     0,     0,     0,     0,  -184,     0,
+    -184,     0,  -184,  -184,     0,     0,     0,  -184,  -184,     0,
+       0,     0,     0,     0,     0,     0,     0,  -184,     0,     0,
+    -184,  -184,     0,     0,  -184,  -184,  -184,  -184,     0,     0,
+       0,     0,     0,  -184,     0,     0,     0,     0,  -217,  -184,
+    -184,  -217,     0,     0,     0,     0,     0,  -217,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -217,     0,     0,     0,     0,     0,
+    -184,  -184,  -184,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -217,     0,     0,     0,     0,     0,  -217,
+       0,     0,     0,  -217,     0,     0,     0,     0,     0,     0,
+       0,  -184,     0,  -184,  -217,  -184,  -184,  -217,     0,  -217,
+    -217,     0,     0,     0,  -217,     0,  -217,  -217,     0,  -217,
+    -217,  -217,     0,     0,     0,     0,     0,     0,  -217,     0,
+    -217,     0,  -217,  -217,     0,     0,     0,  -217,  -217,     0,
+       0,     0,     0,     0,     0,     0,     0,  -217,     0,     0,
+    -217,  -217,     0,     0,  -217,  -217,  -217,  -217,     0,     0,
+       0,     0,     0,  -217,     0,     0,     0,     0,  -218,  -217,
+    -217,  -218,     0,     0,     0,     0,     0,  -218,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -218,     0,     0,     0,     0,     0,
+    -217,  -217,  -217,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -218,     0,     0,     0,     0,     0,  -218,
+       0,     0,     0,  -218,     0,     0,     0,     0,     0,     0,
+       0,  -217,     0,  -217,  -218,  -217,  -217,  -218,     0,  -218,
+    -218,     0,     0,     0,  -218,     0,  -218,  -218,     0,  -218,
+    -218,  -218,     0,     0,     0,     0,     0,     0,  -218,     0,
+    -218,     0,  -218,  -218,     0,     0,     0,  -218,  -218,     0,
+       0,     0,     0,     0,     0,     0,     0,  -218,     0,     0,
+    -218,  -218,     0,     0,   308,  -218,  -218,  -218,     0,     0,
+       0,     0,     0,  -218,     0,     0,     0,     0,  -229,  -218,
+    -218,  -229,     0,     0,     0,     0,     0,  -229,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -229,     0,     0,     0,     0,     0,
+    -218,  -218,  -218,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -229,     0,     0,     0,     0,     0,  -229,
+       0,     0,     0,  -229,     0,     0,     0,     0,     0,     0,
+       0,  -218,     0,  -218,  -229,  -218,  -218,  -229,     0,  -229,
+    -229,     0,     0,     0,  -229,     0,  -229,  -229,     0,  -229,
+    -229,  -229,     0,     0,     0,     0,     0,     0,  -229,     0,
+    -229,     0,  -229,  -229,     0,     0,     0,  -229,  -229,     0,
+       0,     0,     0,     0,     0,     0,     0,  -229,     0,     0,
+    -229,  -229,     0,     0,  -229,  -229,  -229,  -229,     0,     0,
+       0,     0,     0,  -229,     0,     0,     0,     0,  -230,  -229,
+    -229,  -230,     0,     0,     0,     0,     0,  -230,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -230,     0,     0,     0,     0,     0,
+    -229,  -229,  -229,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -230,     0,     0,     0,     0,     0,  -230,
+       0,     0,     0,  -230,     0,     0,     0,     0,     0,     0,
+       0,  -229,     0,  -229,  -230,  -229,  -229,  -230,     0,  -230,
+    -230,     0,     0,     0,  -230,     0,  -230,  -230,     0,  -230,
+    -230,  -230,     0,     0,     0,     0,     0,     0,  -230,     0,
+    -230,     0,  -230,  -230,     0,     0,     0,  -230,  -230,     0,
+       0,     0,     0,     0,     0,     0,     0,  -230,     0,     0,
+    -230,  -230,     0,     0,  -230,  -230,  -230,  -230,     0,     0,
+       0,     0,     0,  -230,     0,     0,     0,     0,  -221,  -230,
+    -230,  -221,     0,     0,     0,     0,     0,  -221,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -221,     0,     0,     0,     0,     0,
+    -230,  -230,  -230,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -221,     0,     0,     0,     0,     0,  -221,
+       0,     0,     0,  -221,     0,     0,     0,     0,     0,     0,
+       0,  -230,     0,  -230,  -221,  -230,  -230,  -221,     0,  -221,
+    -221,     0,     0,     0,  -221,     0,  -221,  -221,     0,  -221,
+    -221,  -221,     0,     0,     0,     0,     0,     0,  -221,     0,
+    -221,     0,  -221,  -221,     0,     0,     0,  -221,  -221,     0,
+       0,     0,     0,     0,     0,     0,     0,  -221,     0,     0,
+    -221,  -221,     0,     0,  -221,  -221,  -221,  -221,     0,     0,
+       0,     0,     0,  -221,     0,     0,     0,     0,  -219,  -221,
+    -221,  -219,     0,     0,     0,     0,     0,  -219,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -219,     0,     0,     0,     0,     0,
+    -221,  -221,  -221,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -219,     0,     0,     0,     0,     0,  -219,
+       0,     0,     0,  -219,     0,     0,     0,     0,     0,     0,
+       0,  -221,     0,  -221,  -219,  -221,  -221,  -219,     0,  -219,
+    -219,     0,     0,     0,  -219,     0,  -219,  -219,     0,  -219,
+    -219,  -219,     0,     0,     0,     0,     0,     0,  -219,     0,
+    -219,     0,  -219,  -219,     0,     0,     0,  -219,  -219,     0,
+       0,     0,     0,     0,     0,     0,     0,  -219,     0,     0,
+    -219,  -219,     0,     0,  -219,  -219,  -219,  -219,     0,     0,
+       0,     0,     0,  -219,     0,     0,     0,     0,  -222,  -219,
+    -219,  -222,     0,     0,     0,     0,     0,  -222,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -222,     0,     0,     0,     0,     0,
+    -219,  -219,  -219,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -222,     0,     0,     0,     0,     0,  -222,
+       0,     0,     0,  -222,     0,     0,     0,     0,     0,     0,
+       0,  -219,     0,  -219,  -222,  -219,  -219,  -222,     0,  -222,
+    -222,     0,     0,     0,  -222,     0,  -222,  -222,     0,  -222,
+    -222,  -222,     0,     0,     0,     0,     0,     0,  -222,     0,
+    -222,     0,  -222,  -222,     0,     0,     0,  -222,  -222,     0,
+       0,     0,     0,     0,     0,     0,     0,  -222,     0,     0,
+    -222,  -222,     0,     0,  -222,  -222,  -222,  -222,     0,     0,
+       0,     0,     0,  -222,     0,     0,     0,     0,  -220,  -222,
+    -222,  -220,     0,     0,     0,     0,     0,  -220,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -220,     0,     0,     0,     0,     0,
+    -222,  -222,  -222,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -220,     0,     0,     0,     0,     0,  -220,
+       0,     0,     0,  -220,     0,     0,     0,     0,     0,     0,
+       0,  -222,     0,  -222,  -220,  -222,  -222,  -220,     0,  -220,
+    -220,     0,     0,     0,  -220,     0,  -220,  -220,     0,  -220,
+    -220,  -220,     0,     0,     0,     0,     0,     0,  -220,     0,
+    -220,     0,  -220,  -220,     0,     0,     0,  -220,  -220,     0,
+       0,     0,     0,     0,     0,     0,     0,  -220,     0,     0,
+    -220,  -220,     0,     0,  -220,  -220,  -220,  -220,     0,     0,
+       0,     0,     0,  -220,     0,     0,     0,     0,     0,  -220,
+    -220,  -309,     0,     0,  -309,     0,     0,     0,     0,     0,
+    -309,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -309,     0,     0,
+    -220,  -220,  -220,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -309,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -309,     0,     0,  -309,
+       0,  -220,     0,  -220,  -309,  -220,  -220,  -309,     0,     0,
+    -309,     0,  -309,  -309,     0,     0,     0,  -309,     0,  -309,
+    -309,     0,  -309,  -309,  -309,     0,     0,     0,     0,     0,
+       0,     0,  -309,     0,     0,  -309,  -309,     0,     0,     0,
+    -309,  -309,     0,     0,     0,  -309,     0,     0,     0,  -310,
+       0,     0,  -310,     0,  -309,     0,     0,     0,  -310,     0,
+    -309,     0,  -309,     0,  -309,     0,  -309,     0,     0,     0,
+       0,     0,  -309,     0,  -309,  -310,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -310,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -310,     0,     0,  -310,     0,     0,
+    -309,  -309,  -310,     0,  -309,  -310,     0,     0,  -310,     0,
+    -310,  -310,     0,     0,     0,  -310,     0,  -310,  -310,     0,
+    -310,  -310,  -310,     0,     0,  -309,  -309,    80,  -309,  -309,
+    -310,     0,     0,  -310,  -310,     0,     0,     0,  -310,  -310,
+       0,     0,     0,  -310,     0,  -316,     0,     0,   354,     0,
+       0,     0,  -310,     0,  -316,     0,     0,     0,  -310,     0,
+    -310,     0,  -310,     0,  -310,     0,     0,     0,     0,     0,
+    -310,  -316,  -310,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -353,     0,     0,     0,     0,     0,
+    -316,     0,     0,  -353,     0,     0,     0,     0,     0,     0,
+    -316,     0,     0,     0,     0,     0,     0,     0,  -310,  -310,
+    -353,  -316,  -310,     0,  -316,     0,  -316,  -316,     0,     0,
+       0,  -316,     0,  -316,  -316,     0,  -316,  -316,  -316,  -353,
+       0,     0,     0,  -310,  -310,     0,  -310,  -310,     0,  -353,
+    -316,     0,     0,     0,  -316,  -316,     0,     0,     0,     0,
+    -353,     0,     0,  -353,     0,  -353,  -353,     0,  -316,     0,
+    -353,     0,  -353,  -353,  -316,  -353,  -353,  -353,     0,     0,
+     540,     0,     0,     0,     0,     0,  -316,     0,  -317,  -353,
+       0,     0,     0,  -353,  -353,     0,  -320,  -317,     0,   354,
+       0,     0,     0,     0,     0,  -320,     0,  -353,     0,     0,
+     308,     0,     0,  -353,  -317,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -353,   309,     0,     0,     0,
+       0,     0,     0,  -317,     0,     0,     0,     0,     0,     0,
+       0,  -320,     0,  -317,     0,     0,     0,  -320,     0,     0,
+    -316,  -320,  -316,  -316,  -317,     0,     0,  -317,     0,  -317,
+    -317,     0,     0,     0,  -317,  -320,  -317,  -317,  -320,  -317,
+    -317,  -317,  -320,     0,     0,     0,     0,  -320,     0,  -320,
+       0,     0,     0,  -317,     0,     0,     0,  -317,  -317,  -353,
+    -320,  -353,  -353,     0,     0,     0,     0,  -301,     0,     0,
+       0,  -317,     0,     0,     0,     0,  -301,  -317,     0,  -320,
+       0,     0,   308,     0,     0,  -320,     0,     0,     0,  -317,
+       0,   355,     0,  -301,     0,     0,     0,     0,   309,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -301,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -301,     0,     0,     0,     0,     0,  -320,  -320,
+    -320,     0,     0,  -301,     0,     0,  -301,     0,  -301,  -301,
+       0,     0,  -303,  -301,     0,  -301,  -301,     0,  -301,  -301,
+    -301,  -303,   616,  -317,     0,  -317,  -317,     0,     0,  -320,
+       0,  -320,  -301,  -320,  -320,     0,  -301,  -301,  -303,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -301,     0,     0,     0,     0,     0,  -301,  -303,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -303,  -301,     0,
+       0,     0,     0,  -302,     0,     0,     0,     0,  -303,     0,
+       0,  -303,  -302,  -303,  -303,     0,     0,     0,  -303,     0,
+    -303,  -303,     0,  -303,  -303,  -303,     0,     0,     0,  -302,
+       0,     0,     0,     0,     0,     0,     0,  -303,     0,     0,
+       0,  -303,  -303,     0,     0,     0,     0,     0,  -302,     0,
+       0,     0,     0,     0,     0,  -303,     0,     0,  -302,     0,
+       0,  -303,  -301,     0,  -301,  -301,     0,     0,     0,  -302,
+       0,     0,  -302,  -303,  -302,  -302,     0,     0,  -315,  -302,
+       0,  -302,  -302,     0,  -302,  -302,  -302,  -315,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -302,     0,
+       0,     0,  -302,  -302,  -315,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -302,     0,     0,     0,
+       0,     0,  -302,  -315,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -315,  -302,     0,     0,  -303,     0,  -303,
+    -303,     0,     0,     0,  -315,     0,     0,  -315,     0,  -315,
+    -315,     0,     0,     0,  -315,     0,  -315,  -315,  -307,  -315,
+    -315,  -315,     0,     0,     0,     0,     0,  -307,     0,     0,
+       0,     0,     0,  -315,     0,     0,     0,  -315,  -315,     0,
+       0,     0,     0,     0,  -307,     0,     0,     0,     0,     0,
+       0,  -315,     0,     0,     0,     0,     0,  -315,  -302,     0,
+    -302,  -302,     0,  -307,     0,     0,     0,     0,     0,  -315,
+       0,     0,     0,  -307,     0,     0,     0,     0,     0,  -313,
+       0,     0,     0,     0,  -307,     0,     0,  -307,  -313,  -307,
+    -307,     0,     0,     0,  -307,     0,  -307,  -307,     0,  -307,
+    -307,  -307,     0,     0,     0,  -313,     0,     0,     0,     0,
+       0,     0,     0,  -307,     0,     0,     0,  -307,  -307,     0,
+       0,     0,     0,     0,  -313,     0,     0,     0,     0,     0,
+       0,  -307,     0,  -315,  -313,  -315,  -315,  -307,     0,   214,
+     118,   119,   120,     0,     0,  -313,     0,     0,  -313,  -307,
+    -313,  -313,     0,     0,  -304,  -313,     0,  -313,  -313,     0,
+    -313,  -313,  -313,  -304,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -313,     0,     0,     0,  -313,  -313,
+    -304,     0,   215,   216,   217,     0,     0,     0,     0,     0,
+       0,     0,  -313,     0,     0,     0,     0,     0,  -313,  -304,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -304,
+    -313,     0,     0,  -307,     0,  -307,  -307,     0,     0,     0,
+    -304,   218,     0,  -304,   122,  -304,  -304,     0,     0,     0,
+    -304,     0,  -304,  -304,  -340,  -304,  -304,  -304,     0,     0,
+     123,     0,     0,  -340,     0,     0,     0,     0,     0,  -304,
+       0,   272,     0,  -304,  -304,     0,     0,   219,     0,     0,
+    -340,     0,     0,     0,     0,     0,     0,  -304,     0,     0,
+       0,   220,     0,  -304,  -313,     0,  -313,  -313,     0,  -340,
+       0,     0,     0,     0,     0,  -304,   124,   125,   126,  -340,
+       0,     0,     0,     0,     0,  -341,     0,     0,     0,     0,
+    -340,     0,     0,  -340,  -341,  -340,  -340,     0,     0,     0,
+    -340,     0,  -340,  -340,     0,  -340,  -340,  -340,     0,     0,
+       0,  -341,   221,   222,     0,     0,     0,     0,     0,  -340,
+     223,     0,     0,  -340,  -340,   128,     0,     0,     0,     0,
+    -341,     0,     0,     0,     0,     0,     0,  -340,     0,  -304,
+    -341,  -304,  -304,  -340,     0,   214,   118,   119,   120,     0,
+       0,  -341,     0,     0,  -341,  -340,  -341,  -341,     0,     0,
+    -314,  -341,     0,  -341,  -341,     0,  -341,  -341,  -341,  -314,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -341,     0,     0,     0,  -341,  -341,  -314,     0,   215,   216,
+     217,     0,     0,     0,     0,     0,     0,     0,  -341,     0,
+       0,     0,     0,     0,  -341,  -314,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -314,  -341,     0,     0,  -340,
+       0,  -340,  -340,     0,     0,     0,  -314,   218,     0,  -314,
+     122,  -314,  -314,     0,     0,     0,  -314,     0,  -314,  -314,
+    -342,  -314,  -314,  -314,     0,     0,   123,     0,     0,  -342,
+       0,     0,     0,     0,   298,  -314,     0,     0,     0,  -314,
+    -314,     0,     0,   219,     0,     0,  -342,     0,     0,     0,
+       0,     0,     0,  -314,     0,     0,     0,   220,     0,  -314,
+    -341,     0,  -341,  -341,     0,  -342,     0,     0,     0,     0,
+       0,  -314,   124,   125,   126,  -342,     0,     0,     0,     0,
+       0,  -299,     0,     0,     0,     0,  -342,     0,     0,  -342,
+    -299,  -342,  -342,     0,     0,     0,  -342,     0,  -342,  -342,
+       0,  -342,  -342,  -342,     0,     0,     0,   531,   221,   222,
+       0,     0,     0,     0,     0,  -342,   223,     0,     0,  -342,
+    -342,   128,     0,     0,     0,     0,  -299,     0,     0,     0,
+       0,     0,     0,  -342,     0,  -314,  -299,  -314,  -314,  -342,
+       0,     0,     0,     0,     0,     0,     0,   532,     0,     0,
+    -299,  -342,   533,  -299,     0,     0,  -300,  -299,     0,   534,
+     535,     0,  -299,     0,  -299,  -300,     0,     0,     0,  -171,
+       0,     0,     0,     0,     0,     0,   536,     0,  -171,     0,
+    -352,   537,   531,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -299,     0,     0,     0,     0,     0,
+    -299,  -300,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -300,     0,     0,  -171,  -342,     0,  -342,  -342,     0,
+    -171,     0,   532,     0,  -171,  -300,     0,   533,  -300,     0,
+       0,     0,  -300,     0,   534,   535,     0,  -300,  -171,  -300,
+       0,  -171,     0,     0,  -319,  -171,     0,     0,     0,     0,
+    -171,   536,  -171,  -319,     0,  -352,   537,     0,     0,     0,
+       0,     0,     0,  -171,     0,     0,     0,     0,     0,  -300,
+       0,     0,     0,     0,     0,  -300,  -299,     0,  -299,  -305,
+       0,     0,  -171,     0,     0,     0,     0,     0,  -171,  -319,
+       0,     0,     0,     0,     0,  -319,     0,     0,     0,  -319,
+       0,  -182,     0,     0,     0,     0,     0,     0,     0,     0,
+    -182,     0,     0,  -319,     0,     0,  -319,     0,     0,     0,
+    -319,     0,     0,     0,     0,  -319,     0,  -319,     0,     0,
+       0,  -171,  -171,  -171,     0,     0,     0,     0,  -319,     0,
+       0,  -172,     0,     0,     0,     0,  -182,     0,     0,  -317,
+    -172,  -300,  -182,  -300,  -306,     0,  -182,  -319,  -317,     0,
+       0,     0,  -171,  -319,  -171,     0,  -171,  -171,     0,     0,
+    -182,     0,     0,  -182,     0,     0,     0,  -182,     0,     0,
+       0,     0,  -182,     0,  -182,     0,  -172,     0,     0,     0,
+       0,     0,  -172,     0,  -317,  -182,  -172,     0,     0,     0,
+    -317,     0,     0,  -143,  -317,     0,  -319,  -319,  -319,     0,
+    -172,     0,  -143,  -172,  -182,     0,     0,  -172,  -317,     0,
+    -182,  -317,  -172,     0,  -172,  -317,     0,     0,     0,     0,
+    -317,     0,  -317,     0,     0,  -172,     0,  -319,  -145,  -319,
+       0,  -319,  -319,  -317,     0,     0,     0,  -145,  -143,     0,
+       0,     0,     0,     0,  -172,     0,     0,     0,  -143,     0,
+    -172,     0,  -317,  -182,  -182,  -182,     0,     0,  -317,     0,
+       0,     0,  -143,     0,     0,  -143,     0,     0,     0,  -143,
+    -148,     0,     0,  -145,  -143,     0,  -143,     0,     0,  -148,
+       0,     0,     0,  -145,  -182,     0,  -182,  -143,  -182,  -182,
+    -144,     0,     0,  -172,  -172,  -172,     0,  -145,     0,  -144,
+    -145,  -317,  -317,  -317,  -145,     0,  -143,     0,     0,  -145,
+       0,  -145,  -143,     0,     0,  -148,     0,     0,     0,     0,
+       0,     0,   350,     0,  -172,  -148,  -172,     0,  -172,  -172,
+       0,     0,  -317,     0,  -317,  -144,  -317,  -317,     0,  -148,
+       0,  -145,  -148,     0,     0,  -144,  -148,  -145,     0,     0,
+       0,  -148,     0,   149,     0,  -146,     0,     0,     0,  -144,
+       0,     0,  -144,     0,  -146,     0,  -144,     0,     0,     0,
+       0,  -144,     0,  -144,     0,  -164,  -164,  -164,  -164,     0,
+       0,     0,     0,  -148,  -164,     0,     0,     0,  -143,  -148,
+    -143,   353,     0,     0,     0,     0,  -292,  -292,  -292,  -292,
+    -146,     0,     0,  -144,     0,  -292,     0,     0,     0,  -144,
+    -146,     0,     0,     0,     0,     0,     0,     0,  -164,  -164,
+    -164,     0,     0,  -145,  -146,  -145,     0,  -146,     0,     0,
+       0,  -146,     0,     0,     0,     0,  -146,     0,  -146,  -292,
+    -292,  -292,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -164,     0,     0,
+    -164,     0,     0,     0,     0,  -148,     0,  -148,  -146,     0,
+       0,     0,     0,     0,  -146,     0,  -164,     0,  -292,     0,
+       0,  -292,     0,     0,     0,  -144,     0,  -144,     0,     0,
+       0,     0,     0,  -164,     0,     0,   107,  -292,     0,     0,
+       0,     0,     0,  -142,  -142,  -142,  -142,  -164,     0,     0,
+       0,     0,   173,     0,  -292,     0,     0,     0,     0,     0,
+       0,     0,  -164,  -164,  -164,     0,     0,     0,  -292,  -142,
+    -142,  -142,  -142,     0,     0,     0,     0,     0,   173,     0,
+       0,     0,     0,  -292,  -292,  -292,  -142,  -142,  -142,     0,
+    -146,     0,  -146,     0,     0,     0,     0,     0,  -164,  -164,
+       0,     0,     0,     0,     0,     0,  -164,     0,     0,     0,
+       0,  -164,  -142,  -142,  -142,     0,     0,     0,     0,  -292,
+    -292,     0,     0,     0,     0,  -142,  -292,  -292,  -142,     0,
+       0,     0,  -292,     0,     0,     0,     0,  -142,  -142,  -142,
+    -142,     0,     0,     0,  -142,     0,   173,     0,     0,     0,
+       0,  -142,     0,     0,  -142,  -163,  -163,  -163,  -163,     0,
+       0,  -142,     0,     0,  -163,   214,   118,   119,   120,     0,
+    -142,     0,     0,     0,     0,  -142,     0,     0,     0,     0,
+    -142,  -142,  -142,     0,     0,     0,     0,  -142,     0,     0,
+    -142,  -142,  -142,     0,     0,     0,     0,     0,  -163,  -163,
+    -163,  -142,     0,     0,     0,     0,     0,     0,   215,   216,
+     217,     0,     0,     0,     0,     0,  -142,  -142,  -142,  -142,
+      75,     0,  -142,     0,     0,     0,  -142,  -142,     0,     0,
+       0,     0,     0,     0,  -142,   401,     0,  -163,  -142,  -142,
+    -163,     0,     0,     0,     0,     0,     0,   218,     0,     0,
+     122,     0,  -142,  -142,     0,  -142,  -163,     0,     0,     0,
+    -142,   567,     0,     0,     0,  -142,   123,     0,     0,  -142,
+       0,     0,     0,  -163,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,   219,  -142,  -142,  -142,  -163,     0,     0,
+       0,   214,   118,   119,   120,     0,     0,   220,     0,     0,
+       0,     0,  -163,  -163,  -163,     0,     0,     0,     0,     0,
+       0,     0,   124,   125,   126,  -141,  -141,  -141,  -141,     0,
+    -142,  -142,     0,     0,     0,     0,     0,     0,  -142,     0,
+       0,     0,     0,  -142,   215,   216,   217,     0,  -163,  -163,
+       0,     0,     0,     0,     0,     0,  -163,     0,   221,   222,
+       0,  -163,     0,     0,     0,     0,   223,     0,  -141,  -141,
+    -141,   128,     0,     0,     0,     0,     0,     0,   214,   118,
+     119,   120,     0,   218,     0,     0,   122,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   123,     0,     0,     0,     0,  -141,     0,     0,
+    -141,     0,     0,     0,     0,     0,     0,     0,     0,   219,
+       0,   301,   216,   217,     0,     0,  -141,     0,     0,     0,
+       0,     0,     0,   220,     0,     0,     0,     0,   214,   118,
+     119,   120,     0,  -141,     0,     0,     0,     0,   124,   125,
+     126,     0,     0,     0,     0,     0,     0,  -141,     0,     0,
+     218,     0,     0,   122,     0,     0,     0,     0,     0,     0,
+       0,     0,  -141,  -141,  -141,     0,     0,     0,     0,   123,
+       0,     0,   216,   217,   221,   222,     0,     0,     0,     0,
+       0,     0,   223,     0,     0,     0,   302,   128,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -141,  -141,
+     220,     0,     0,     0,     0,     0,  -141,     0,     0,     0,
+     218,  -141,     0,   122,     0,   124,   125,   126,     0,     0,
+       0,     0,     0,     0,     0,     0,  -354,     0,     0,   123,
+       0,     0,     0,     1,     0,     0,     0,     0,     0,     0,
+       0,     2,     0,     0,     0,     0,   302,     0,     3,     0,
+       0,   221,   222,     4,     0,     0,     0,     0,     0,   223,
+     220,     0,     0,     5,   128,     0,     6,     7,     0,     0,
+       0,     0,     0,     0,     0,   124,   125,   126,     8,     9,
+       0,     0,     0,     0,  -335,     0,     0,     0,    10,     0,
+       0,    11,     0,     0,     0,     1,     0,     0,     0,     0,
+       0,     0,     0,     2,     0,     0,     0,     0,     0,     0,
+       3,   221,   222,    12,     0,     4,     0,    13,     0,   223,
+       0,     0,     0,     0,   128,     5,     0,     0,     6,     7,
+       0,     0,     0,    14,     0,     0,     0,     0,     0,    15,
+       8,     9,     0,     0,     0,     0,  -335,     0,     0,     0,
+      10,     0,     0,    11,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,    12,     0,     0,     0,    13,
+       0,    16,    17,    18,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,    14,     0,     0,     0,     0,
+       0,    15,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,    16,    17,    18,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -335
 };
 
 static const yytype_int16 yycheck[] =
 {
        2,   107,   149,     5,   175,    54,   148,   304,    10,   211,
-      12,   182,    57,    58,    59,   293,   155,     3,    97,    98,
-     374,   342,    12,    81,     3,     6,   112,   115,    26,   115,
-       3,   219,     6,   221,   181,     3,   183,   184,   373,    51,
-      12,   395,   495,    17,     5,     6,    48,    58,    50,    55,
-      83,   203,    78,     3,     3,    19,   136,     3,    60,   566,
-     567,   166,   167,     4,     5,     6,   101,     3,    66,    12,
-     335,   218,   151,    71,   539,   112,   223,    94,    24,   116,
-      78,    79,   347,    85,    86,     4,     5,     6,    24,   113,
-     292,    93,    27,   128,    37,   132,    60,    95,   100,   101,
-     247,    99,   100,    49,   153,   402,     3,    48,   125,   116,
-     116,    54,   192,    49,   302,   622,     3,   256,    62,    26,
-       3,   475,   310,   588,   312,   132,   132,   424,   316,   317,
+      12,   182,    57,    58,    59,   293,   342,   115,    97,    98,
+     374,    19,   116,    81,     3,    78,     3,   112,   125,   116,
+     115,   219,   373,   221,   181,     0,   183,   184,   132,   539,
+       0,   395,    27,   335,     0,     3,    48,     0,    50,   495,
+       0,     0,     3,     0,   203,   347,     0,    78,    60,     5,
+       6,     3,    60,    94,     0,     3,   109,    94,     3,    70,
+       0,   218,   151,   116,    94,   104,   223,     0,    99,    80,
+     116,     0,     0,    85,    86,    98,     0,     3,   588,   132,
+     292,    93,   121,     0,     0,     0,   132,   194,   100,   101,
+     247,   195,    55,     0,   153,   402,     0,     0,   195,     0,
+     111,     0,     9,   133,   302,     0,     9,     0,    83,    72,
+       0,   475,   310,    76,   312,   178,    80,   424,   316,   317,
      318,   319,   320,   321,   322,   323,   324,   325,   326,   327,
-     328,   329,   330,   201,   296,   499,   500,    88,   601,   207,
-     297,   298,   178,    98,     3,     4,     5,     6,   104,    66,
-     103,   308,   309,   104,    71,   198,   116,   130,   104,    88,
-     194,    78,    79,   508,   223,   125,   125,   194,   266,   194,
-     266,   196,   132,   194,   165,   104,   198,   168,    95,   150,
-     134,   165,    99,   100,   168,   158,   159,    46,    47,    48,
-     198,   169,   170,   171,    26,   195,   527,   209,   194,   150,
-     151,   152,   351,   360,   187,   194,    94,   161,   365,   366,
-     136,   518,    94,   195,    94,   331,    80,   505,   172,   158,
-     159,   150,   151,   152,   422,   116,    85,   116,    70,    88,
-       3,     4,     5,     6,    66,   186,   295,   195,    80,    71,
-     198,   132,     9,   132,   456,   104,    78,    79,   199,     9,
-      82,   133,   616,   410,   411,    70,   115,   186,   154,   198,
-      55,   568,   121,    95,   190,    80,   192,   335,   100,   111,
-     199,   104,   636,    46,    47,    48,   135,    72,    45,   347,
-       3,   198,   109,   338,   591,    45,   375,   643,   121,   116,
-      90,   150,   151,   152,   104,     0,   111,   197,   654,   131,
-       3,     4,     5,     6,   195,   132,   195,   163,   164,    76,
-      92,   121,    85,   620,    81,    88,   116,   117,   516,   136,
-     332,    81,   113,     3,     4,     5,     6,   186,   187,     3,
-     112,   104,   132,   116,   109,   194,   118,   194,    92,   112,
-     199,   116,   125,    46,    47,    48,    58,   196,   121,   132,
-     507,    63,   509,   510,   413,    58,   193,   132,   112,   169,
-     170,   198,   135,   173,   118,   424,    46,    47,    48,    94,
-     187,   188,   189,   190,   116,   192,   118,   150,   151,   152,
-     127,   116,    85,   118,   265,    88,   162,   163,   164,   270,
-     132,     3,     4,     5,     6,     3,   195,   132,   127,   198,
-     133,   104,   198,   195,   123,    85,   198,   559,    88,   195,
-      17,    18,   198,   186,   187,    97,   195,   574,   121,   198,
-     124,   194,   603,   125,   104,   195,   199,   195,   198,     3,
-     198,     4,   135,   121,    46,    47,    48,   195,    83,   195,
-     198,   121,   198,   195,   166,   167,   198,   150,   151,   152,
-     195,   195,    17,   198,   198,   135,    46,    47,     3,   518,
-       3,     4,     5,     6,    93,   195,   194,   624,   198,   626,
-     150,   151,   152,    85,   195,   195,    88,   198,   198,   195,
-       3,   493,   198,   186,   187,   195,    46,   195,   198,    54,
-     198,   194,   104,     4,   195,   195,   199,   138,   139,   140,
-     141,   142,   143,     3,    47,    48,   186,   187,   194,   121,
-     194,     6,   115,    12,   194,   126,   194,     4,     4,   199,
-     195,   198,    46,   135,     3,   131,   175,    91,     0,     3,
-      76,   119,     3,   113,   125,     7,   101,   194,   150,   151,
-     152,   194,    85,    15,   194,    88,   192,    98,    39,    55,
-      22,   194,   194,    94,   194,    27,   121,   125,   194,   198,
-     198,   104,    93,   128,   129,    37,   194,   172,    40,    41,
-     172,   136,   137,    58,   186,   187,   194,   194,   121,   195,
-      52,    53,   194,     3,   161,     4,     4,   199,     4,     3,
-      62,     3,   135,    65,   138,   139,   140,   141,   142,   143,
-     144,   145,   146,   147,   148,   149,   172,   150,   151,   152,
-     175,   176,   177,   178,   179,    87,   194,   182,   183,    91,
-     185,   186,   187,   188,   189,   190,    77,   192,    54,    94,
-     192,   194,     7,   194,   101,   107,   194,   194,   194,   194,
-      15,   113,   194,   186,   187,   195,   116,    22,   104,    11,
-       3,   194,    27,     3,   194,   193,   199,    62,    69,   198,
-     195,     6,    37,    25,   160,    40,    41,    29,    30,    31,
-      32,    33,    54,    35,     6,   101,     6,    52,    53,     6,
-       6,    43,   104,   155,   156,   157,   194,    62,   172,     4,
-      65,   195,   195,    54,   195,   121,    99,    78,    78,    78,
-      99,     3,   126,   129,   105,   195,    68,   195,    54,     6,
-     136,   137,    87,   195,   195,   195,    91,   195,   194,   101,
-     173,   194,   126,   116,    86,    24,    88,    89,    70,   195,
-     349,   195,   107,   399,   116,   339,   453,   360,   113,   121,
-     101,   103,   495,   248,   207,   299,   108,   129,   110,   175,
-     176,   177,   178,   179,   136,   137,   182,   183,   120,   185,
-     186,   187,   188,   189,   190,   201,   192,   353,   129,   127,
-     127,   584,   583,   104,   276,   136,   137,   364,    -1,   548,
-     155,   156,   157,   129,    -1,    -1,    -1,   264,    -1,    -1,
-     136,   153,    -1,   175,   176,   177,   178,   179,    -1,    -1,
-     182,   183,    -1,   185,   186,   187,   188,   189,   190,    -1,
-     192,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+     328,   329,   330,   201,     0,   499,   500,   296,    45,   207,
+     297,   298,    45,   113,    51,   601,     0,     0,    55,   195,
+     113,   308,   309,   113,   113,    83,     9,   508,   266,   119,
+       3,     0,     0,   131,   223,    72,    83,   113,    83,    76,
+       6,   266,    58,    26,    81,     0,     0,     6,    81,     0,
+     113,    17,   127,   116,     0,   113,   119,     3,     0,   113,
+      83,   527,    45,     0,   150,   119,     3,   209,    51,   132,
+     187,     0,    55,   360,     0,   194,   113,     3,   365,   366,
+     113,   518,   119,    66,   113,   331,    69,   505,    71,    72,
+     113,     3,   197,    76,   422,    78,    79,   197,    81,    82,
+      83,   197,   195,   194,   197,   195,   295,   197,   197,    55,
+     197,    94,    95,   197,   456,    83,    99,   100,    55,   195,
+       0,   197,   616,   410,   411,   154,    72,   197,    58,    55,
+     113,   568,   195,    63,   197,    72,   119,   335,   197,   197,
+     198,   195,   636,   197,    90,   113,    72,     3,   131,   347,
+     197,   197,   197,   338,   591,    58,   375,     0,   195,   113,
+     197,   198,   195,   197,   197,   119,   197,   113,   197,     3,
+     116,   117,   197,   119,   197,   198,   113,   197,   194,   162,
+     163,   164,   119,   620,   113,     0,   132,   113,   516,   643,
+     332,     0,     0,   119,   133,   155,   169,   170,   171,   165,
+     654,   197,   168,     0,   158,   159,   165,    17,    18,   168,
+     193,   116,   195,   197,   197,   198,   162,   163,   164,   131,
+     507,    58,   509,   510,   413,   162,   163,   164,   197,   197,
+     198,     0,   116,   113,     3,   424,   162,   163,   164,   119,
+       9,   195,   197,   197,   198,     0,   197,   195,    17,   195,
+     198,   197,   198,     0,   116,   197,    94,    26,   195,    78,
+     197,   198,   116,    58,   194,   194,   166,   167,   197,   195,
+     113,   197,   198,     0,    83,    83,    45,   559,   158,   159,
+      99,   195,    51,     0,   198,    54,    55,   574,     0,    98,
+     195,   194,   603,   127,    58,   198,   256,    66,     0,     3,
+      69,    58,    71,    72,   113,   113,    63,    76,   116,    78,
+      79,   195,    81,    82,    83,   195,   113,   197,   198,   116,
+     115,    90,   119,    92,   132,    94,    95,    58,    55,   518,
+      99,   100,   101,   195,     3,   132,    83,   624,    55,   626,
+     109,   195,     3,   112,   113,    72,   123,   116,   117,   118,
+     119,   493,   121,    58,   197,    72,   125,   194,   113,   128,
+     129,   198,   131,   132,   119,   123,   113,   136,   137,   138,
+     139,   140,   141,   142,   143,   144,   145,   146,   147,   148,
+     149,    83,   113,     0,     0,   194,   113,   125,   197,   197,
+     198,   351,   119,   162,   163,   164,   113,     0,   195,   194,
+     197,   113,   119,   158,   159,     0,   175,   176,   177,   178,
+     179,   113,    58,   182,   183,    97,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,     4,   197,   198,
+     194,     9,     0,   101,   198,   162,   163,   164,    55,    17,
+     195,     3,   197,   198,     0,   162,   163,   164,    26,   121,
+     197,    93,    55,     0,     0,    72,     0,     0,   127,    76,
+     128,   193,   131,   194,     0,    70,   198,    45,   195,    72,
+     197,   198,    62,    51,     0,    80,    54,    55,   195,   265,
+     197,   198,   194,     0,   270,   197,   566,   567,    66,   194,
+      78,    69,   194,    71,    72,   197,   113,   113,    76,     3,
+      78,    79,   119,    81,    82,    83,   111,    46,    55,    55,
+     113,    99,    90,     4,    92,   195,    94,    95,    94,    55,
+       0,    99,   100,   101,   195,    72,    72,    58,     3,    55,
+      76,   109,   166,   167,   112,   113,    72,    58,   116,   117,
+     118,   119,   622,   121,   134,   113,    72,   125,   194,   125,
+     128,   129,   198,   131,   132,   163,   164,   113,   136,   137,
+     138,   139,   140,   141,   142,   143,   113,   113,     0,   113,
+     113,   161,   119,   119,   194,     0,   119,   113,   195,   195,
+     197,   197,   172,   119,   162,   163,   164,   113,    58,    46,
+      47,     6,   195,   119,   197,   194,   113,   175,   176,   177,
+     178,   179,   119,    58,   182,   183,   126,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,   194,   197,
+     198,     6,     9,    55,   194,    46,   162,   163,   164,   197,
+      17,    93,    17,   113,     4,     0,   162,   163,   164,    26,
+      72,   197,     0,     0,    76,   115,     0,     0,   195,   195,
+     197,   197,   195,   197,   197,     0,     3,   195,    45,   195,
+     115,   197,   198,   194,    51,     0,     4,    54,    55,   195,
+     131,   197,   198,   194,     0,   131,   109,    24,   195,    66,
+     197,   113,    69,   116,    71,    72,     6,   119,   113,    76,
+      55,    78,    79,    12,    81,    82,    83,    17,     3,   132,
+       3,     0,    49,    90,   175,    92,     3,    94,    95,   125,
+      55,     0,    99,   100,   101,   195,    91,   197,    37,   162,
+     163,   164,   109,     0,   194,   112,   113,    72,    58,   116,
+     117,   118,   119,   195,   121,    54,   198,   116,   125,   194,
+       3,   128,   129,   125,   131,   132,   125,   194,   113,   136,
+     137,   116,   195,   132,   119,   113,   113,   104,   194,   113,
+     113,     0,     0,   195,   194,   197,     0,   132,   113,     0,
+     195,    98,   197,     0,   119,   162,   163,   164,   113,   195,
+     165,   192,   198,   168,   103,   115,     0,   113,   175,   176,
+     177,   178,   179,   119,   195,   182,   183,   198,   185,   186,
+     187,   188,   189,   190,   194,   192,   193,   194,   195,   196,
+     197,   198,     0,    39,   113,     3,    55,   162,   163,   164,
+     119,     9,     0,   194,   113,     0,     0,   125,    55,    17,
+     195,   130,   197,    72,     0,    92,   113,    76,    26,   197,
+     197,     0,     0,   197,   197,   165,   125,    93,   168,     0,
+     195,     9,   197,   198,   116,   112,   118,    45,     0,   158,
+     159,   118,   197,    51,   194,   194,    54,    55,   172,   195,
+     132,   197,   194,     0,   113,   113,   172,    58,    66,   113,
+     119,    69,   113,    71,    72,   194,   113,    45,    76,    77,
+      78,    79,   119,    81,    82,    83,   195,    55,   197,   113,
+     195,   194,    90,     0,    92,   119,    94,    95,   197,   125,
+       3,    99,   100,   101,    72,     4,   195,     4,    76,   198,
+     197,   109,   112,    81,   112,   113,   116,     4,   116,   117,
+     118,   119,     0,   121,     3,   113,     0,   125,   113,   113,
+     128,   129,   132,   131,   132,   119,   161,   113,   136,   137,
+     172,     0,     0,     0,   113,   113,   195,   116,   197,   197,
+     119,   119,   113,   197,     0,   194,   197,     0,   195,   194,
+     197,   113,     3,   132,   162,   163,   164,   119,   195,   195,
+      94,   195,   198,   197,   194,   194,   113,   175,   176,   177,
+     178,   179,   194,    24,   182,   183,   101,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    92,   197,
+     198,   195,     9,     0,   198,     6,   113,     0,    49,   197,
+      17,   195,   197,   197,     0,     0,    17,   195,   112,    26,
+     198,   197,     0,     0,   118,   198,   195,   195,   197,   197,
+       0,     0,     9,     0,     3,   113,   197,   194,    45,   113,
+       0,   119,   104,   195,    51,   197,   195,    54,    55,   198,
+       0,   193,   130,    62,   113,   113,   113,     3,     3,    66,
+     197,   195,    69,   104,    71,    72,     6,   113,    45,    76,
+     113,    78,    79,     6,    81,    82,    83,   160,    55,     6,
+     158,   159,   116,    90,   118,    92,    55,    94,    95,     6,
+     197,   104,    99,   100,   101,    72,   194,   195,   132,    76,
+     198,     6,   109,    72,    81,   112,   113,   172,   194,   116,
+     117,   118,   119,   195,   121,   195,   113,   195,   125,   197,
+     113,   128,   129,   197,   131,   132,   119,   113,   113,   136,
+     137,     4,   195,     0,   119,   113,   113,   130,   197,   197,
+     197,    99,   119,   113,   113,   130,   113,    99,    99,     3,
+     119,   197,    99,   113,   197,   162,   163,   164,   195,   195,
+      99,   198,   198,   113,   165,   158,   159,   168,   175,   176,
+     177,   178,   179,   158,   159,   182,   183,    92,   185,   186,
+     187,   188,   189,   190,   126,   192,   193,   194,   195,     0,
+     197,   198,     3,   162,   163,   164,   195,   112,     9,   198,
+     197,   116,   195,   118,   197,   195,    17,   195,    76,    99,
+     195,   197,   197,   195,   195,    26,   198,   132,   195,   197,
+     197,   195,   195,   195,   198,    76,   195,   197,   197,   198,
+     197,   195,   195,    92,    45,   198,   195,   197,   195,   198,
+      51,   198,   195,    54,    55,   198,   113,   197,     4,     5,
+       6,    76,   119,   112,    99,    66,    99,   116,    69,   118,
+      71,    72,     6,   130,   173,    76,   195,    78,    79,   198,
+      81,    82,    83,   132,   195,   195,   126,   198,   198,    90,
+     105,    92,   195,    94,    95,   198,   116,   195,    99,   100,
+     101,   158,   159,   194,   162,   163,   164,   195,   109,   195,
+     198,   112,   113,   195,   195,   116,   117,   118,   119,    70,
+     121,   162,   163,   164,   125,    24,   195,   128,   129,   198,
+     131,   132,   349,   339,   453,   136,   137,   195,   195,   399,
+     197,   195,    88,   195,   198,   495,   198,   162,   163,   164,
+     195,   248,   104,   198,   195,   360,   195,   198,   104,   198,
+     207,   162,   163,   164,   195,   195,   299,   198,   198,   121,
+     195,   353,   201,   198,   175,   176,   177,   178,   179,   584,
+     195,   182,   183,   104,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,   195,   197,   198,   198,     9,
+     121,   127,   127,   583,   150,   151,   152,    17,   264,   364,
+       4,     5,     6,     4,     5,     6,    26,   169,   170,   548,
+       0,   173,   138,   139,   140,   141,   142,   143,   195,     9,
+     195,   198,   104,   198,   195,    45,   195,   198,   276,   198,
+     186,    51,   194,   195,    54,    55,   198,   195,   169,   170,
+     198,    -1,   173,   199,    48,   195,    66,    48,   198,    69,
+     195,    71,    72,   198,   195,    45,    76,   198,    78,    79,
+      -1,    81,    82,    83,   195,    55,   195,   198,   195,   198,
+      90,   198,    92,   195,    94,    95,   198,    -1,    58,    99,
+     100,   101,    72,    63,    88,   195,    76,    88,   198,   109,
+      -1,    81,   112,   113,    -1,    -1,   116,   117,   118,   119,
+     104,   121,    -1,   104,   195,   125,    -1,   198,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,   104,    -1,
+      -1,    -1,    -1,   113,   104,    -1,    -1,    -1,    -1,   119,
+      -1,    -1,    -1,    -1,    -1,   121,    -1,   104,    -1,    -1,
+      -1,   121,   162,   163,   164,   125,   150,   151,   152,   150,
+     151,   152,    -1,    -1,   121,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,   104,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,   121,   186,   169,   170,   186,    -1,   173,    17,   169,
+     170,   195,    -1,   173,    -1,   199,    -1,    26,   199,    -1,
+      -1,     0,   169,   170,    -1,   195,   173,   197,   194,   195,
+       9,    -1,   198,    -1,    -1,   195,    45,    -1,   198,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,   194,   195,   169,
+     170,   198,    -1,   173,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    45,    76,    -1,    78,
+      79,    -1,    81,    82,    83,   195,    55,    -1,   198,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    72,    -1,    -1,    -1,    76,    -1,    -1,
+     109,    -1,    81,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,   104,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,
+     119,    -1,    -1,    -1,   104,    -1,    -1,    -1,   121,    -1,
+      26,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,   121,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,   104,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      66,     9,   121,    -1,    -1,    71,   169,   170,    -1,    17,
+     173,    -1,    78,    79,    -1,    -1,    82,    -1,    26,   169,
+     170,    -1,    -1,   173,    -1,    -1,   195,    -1,   197,    95,
+      -1,    -1,   195,    99,   100,   198,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,   195,    54,    55,   198,    -1,
+     169,   170,    -1,    -1,   173,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,   131,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,   195,    -1,    -1,   198,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    11,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      25,    -1,   104,    -1,    29,    30,    31,    32,    33,    -1,
+      35,   104,    -1,    -1,    -1,    -1,    -1,    -1,    43,   121,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,   121,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    68,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    86,     9,    88,    89,    -1,    -1,   169,   170,    -1,
+      17,   173,    -1,   104,    -1,    -1,   169,   170,   103,    26,
+     173,    -1,    -1,   108,    -1,   110,    -1,    -1,    -1,    -1,
+     121,    -1,   104,   195,    -1,   120,   198,    -1,    45,    -1,
+      -1,    -1,   195,    -1,    51,   198,    -1,    54,    55,   121,
+     104,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,   121,   153,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,   169,   170,
+      -1,    -1,   173,    90,    54,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,   169,   170,    -1,
+      -1,   173,   109,    -1,   195,   112,   113,   198,    -1,   116,
+     117,   118,   119,    -1,   121,   169,   170,    -1,   125,   173,
+      -1,   128,   129,   195,   131,   132,   198,    -1,    -1,   136,
+     137,   101,    -1,   104,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   195,    -1,    -1,   198,    -1,   116,    -1,    -1,    -1,
+     121,   121,    -1,    -1,    -1,   162,   163,   164,    -1,   129,
+      -1,    -1,    -1,    -1,    -1,    -1,   136,   137,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,   104,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,   121,    -1,    -1,    -1,   169,   170,
+      -1,    17,   173,    -1,   104,   175,   176,   177,   178,   179,
+      26,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,   121,   192,   104,   195,    -1,    -1,   198,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+     121,   104,   169,   170,    -1,    -1,   173,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,    -1,
+      76,    -1,    78,    79,   104,    81,    82,    83,   195,   169,
+     170,   198,    -1,   173,    90,    -1,    92,    -1,    94,    95,
+      -1,   121,    -1,    99,   100,   101,    -1,    -1,   169,   170,
+      -1,    -1,   173,   109,    -1,   195,   112,   113,   198,    -1,
+     116,   117,   118,   119,    -1,   121,   169,   170,    -1,   125,
+     173,    -1,   128,   129,   195,   131,   132,   198,    -1,    -1,
+     136,   137,   104,    -1,   104,    -1,    -1,    -1,    -1,   169,
+     170,    -1,   195,   173,   104,   198,    -1,    -1,    -1,   121,
+     104,   121,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,   121,    -1,    -1,    -1,   195,    -1,   121,   198,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,   169,   170,   169,
+     170,   173,    17,   173,    -1,   104,    -1,    -1,    -1,   169,
+     170,    26,    -1,   173,    -1,   169,   170,    -1,    -1,   173,
+      -1,    -1,   121,   195,    -1,   195,   198,    -1,   198,    -1,
+      45,    -1,    -1,    -1,    -1,   195,    51,    -1,   198,    54,
+      55,   195,   104,    -1,   198,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,   121,
+      -1,    76,    -1,    78,    79,   104,    81,    82,    83,    -1,
+     169,   170,    -1,    -1,   173,    90,    -1,    92,    -1,    94,
+      95,    -1,   121,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,   195,   112,   113,   198,
+      -1,   116,   117,   118,   119,    -1,   121,   169,   170,    -1,
+     125,   173,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,   104,    -1,   104,    -1,    -1,    -1,    -1,
+     169,   170,    -1,   195,   173,   104,   198,    -1,    -1,    -1,
+     121,   104,   121,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,   121,    -1,    -1,    -1,   195,    -1,   121,   198,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,   169,   170,
+     169,   170,   173,    17,   173,    -1,   104,    -1,    -1,    -1,
+     169,   170,    26,    -1,   173,    -1,   169,   170,    -1,    -1,
+     173,    -1,    -1,   121,   195,    -1,   195,   198,    -1,   198,
+      -1,    45,    -1,    -1,    -1,    -1,   195,    51,    -1,   198,
+      54,    55,   195,   104,    -1,   198,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+     121,    -1,    76,    -1,    78,    79,   104,    81,    82,    83,
+      -1,   169,   170,    -1,    -1,   173,    90,    -1,    92,    -1,
+      94,    95,    -1,   121,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,   195,   112,   113,
+     198,    -1,   116,   117,   118,   119,    -1,   121,   169,   170,
+      -1,   125,   173,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,   104,    -1,   104,    -1,    -1,    -1,
+      -1,   169,   170,    -1,   195,   173,    -1,   198,    -1,    -1,
+      -1,   121,    -1,   121,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,   195,    -1,    -1,
+     198,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,   169,
+     170,   169,   170,   173,    17,   173,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   195,    -1,   195,   198,    -1,
+     198,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
       -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
-      -1,   192,   178,   179,    -1,    -1,   182,   183,    -1,   185,
-     186,   187,   188,   189,   190,    -1,   192
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,     0,   192,   193,     3,   195,    -1,   197,   198,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,     0,   192,   193,     3,   195,    -1,   197,
+     198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,   176,
+     177,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,     0,   192,   193,     3,   195,    -1,
+     197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   175,
+     176,   177,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,     0,   192,   193,     3,   195,
+      -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     175,   176,   177,   178,   179,    -1,    -1,   182,   183,    -1,
+     185,   186,   187,   188,   189,   190,     0,   192,   193,     3,
+     195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   175,   176,   177,   178,   179,    -1,    -1,   182,   183,
+      -1,   185,   186,   187,   188,   189,   190,     0,   192,   193,
+       3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,   182,
+     183,    -1,   185,   186,   187,   188,   189,   190,     0,   192,
+     193,     3,   195,    -1,   197,   198,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,    -1,
+     182,   183,    -1,   185,   186,   187,   188,   189,   190,     0,
+     192,   193,     3,   195,    -1,   197,   198,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,     0,   192,   193,     3,   195,    -1,   197,   198,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,     3,   162,   163,   164,    -1,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   175,   176,   177,   178,
+     179,    -1,    -1,   182,   183,    26,   185,   186,   187,   188,
+     189,   190,    -1,   192,   193,    -1,   195,    -1,   197,   198,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,     0,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    45,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    55,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    72,   125,    -1,    -1,    76,   129,    -1,
+     131,   132,    81,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   162,   163,   164,   113,    -1,    -1,   116,    -1,    -1,
+     119,    -1,    -1,    -1,   175,   176,   177,   178,   179,    -1,
+      -1,   182,   183,   132,   185,   186,   187,   188,   189,   190,
+       0,   192,   193,     3,   195,    -1,   197,   198,    -1,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,   195,    -1,   197,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,     0,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,     9,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    55,    -1,     3,
+      -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,
+      -1,    69,    -1,    17,    72,   175,   176,   177,    76,    -1,
+      -1,    -1,    26,    81,    -1,   185,   186,   187,   188,   189,
+     190,    -1,   192,   193,    -1,   195,    -1,   197,   198,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,
+      -1,   119,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,   195,    -1,   197,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,   163,
+     164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+      -1,   175,   176,   177,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   185,   186,   187,   188,   189,   190,    -1,   192,   193,
+      -1,   195,    -1,   197,   198,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,    -1,   175,   176,   177,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,   185,   186,   187,
+     188,   189,   190,    -1,   192,   193,    -1,   195,    -1,   197,
+     198,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,
+     162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,   175,   176,   177,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,   185,   186,   187,   188,   189,   190,    -1,
+     192,   193,    -1,   195,    -1,   197,   198,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,     0,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,     9,    99,   100,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    45,    -1,
+     136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,
+      -1,    58,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
+      -1,    -1,     9,    -1,    -1,    72,   162,   163,   164,    76,
+      17,    -1,    -1,    -1,    81,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,
+     186,   187,   188,   189,   190,    -1,   192,   193,    45,   195,
+      -1,   197,   198,    -1,    51,    -1,   113,    54,    55,    -1,
+      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,   133,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,   194,   195,   136,
+     197,   198,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,   162,   163,   164,    -1,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   178,   179,    -1,    -1,   182,   183,    -1,   185,   186,
+     187,   188,   189,   190,    -1,   192,   193,    45,   195,    -1,
+     197,   198,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,     0,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+       9,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    45,    -1,   136,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    58,
+      -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    72,   162,   163,   164,    76,    17,    -1,
+      -1,    -1,    81,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+     178,   179,    -1,    -1,   182,   183,    -1,   185,   186,   187,
+     188,   189,   190,    -1,   192,   193,    45,   195,    -1,   197,
+     198,    -1,    51,    -1,   113,    54,    55,    -1,    -1,    -1,
+     119,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,   133,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,   194,   195,   136,   197,   198,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,
+      -1,    -1,    -1,   162,   163,   164,    -1,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   178,
+     179,    -1,    -1,   182,   183,    -1,   185,   186,   187,   188,
+     189,   190,    -1,   192,   193,    45,   195,    -1,   197,   198,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,
+      -1,    -1,   162,   163,   164,    -1,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   178,   179,
+      -1,    -1,   182,   183,    -1,   185,   186,   187,   188,   189,
+     190,    -1,   192,   193,    45,   195,    -1,   197,   198,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,    -1,    -1,     0,     9,    -1,    -1,
+      -1,   162,   163,   164,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,   178,   179,    -1,
+      -1,   182,   183,    -1,   185,   186,   187,   188,   189,   190,
+      -1,   192,   193,    45,   195,    -1,   197,   198,    -1,    51,
+      -1,    45,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    55,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    69,    78,    79,    72,    81,
+      82,    83,    76,    -1,    -1,    -1,    -1,    81,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   113,
+      -1,    -1,   116,   125,    -1,   119,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,   132,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,   195,    -1,   197,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,     0,   131,
+     132,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,   195,    66,   197,   198,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,    -1,
+      -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,   131,
+     132,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+     162,   163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    58,
+      -1,   193,    -1,   195,    63,   197,   198,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    91,    -1,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,    -1,    -1,    -1,   104,    -1,    -1,    -1,     0,
+      -1,    -1,     3,    -1,   113,    -1,    -1,    -1,     9,    -1,
+     119,    -1,   121,    -1,   123,    -1,   125,    -1,    -1,    -1,
+      -1,    -1,   131,    -1,   133,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    55,    -1,    -1,    58,    -1,    -1,
+     169,   170,    63,    -1,   173,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,   194,   195,   196,   197,   198,
+      91,    -1,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,   104,    -1,     0,    -1,    -1,     3,    -1,
+      -1,    -1,   113,    -1,     9,    -1,    -1,    -1,   119,    -1,
+     121,    -1,   123,    -1,   125,    -1,    -1,    -1,    -1,    -1,
+     131,    26,   133,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   169,   170,
+      26,    66,   173,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    45,
+      -1,    -1,    -1,   194,   195,    -1,   197,   198,    -1,    55,
+      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,   113,    -1,
+      76,    -1,    78,    79,   119,    81,    82,    83,    -1,    -1,
+     125,    -1,    -1,    -1,    -1,    -1,   131,    -1,     0,    95,
+      -1,    -1,    -1,    99,   100,    -1,     0,     9,    -1,     3,
+      -1,    -1,    -1,    -1,    -1,     9,    -1,   113,    -1,    -1,
+     116,    -1,    -1,   119,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   131,   132,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    45,    -1,    55,    -1,    -1,    -1,    51,    -1,    -1,
+     195,    55,   197,   198,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    69,    78,    79,    72,    81,
+      82,    83,    76,    -1,    -1,    -1,    -1,    81,    -1,    83,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,   195,
+      94,   197,   198,    -1,    -1,    -1,    -1,     0,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,     9,   119,    -1,   113,
+      -1,    -1,   116,    -1,    -1,   119,    -1,    -1,    -1,   131,
+      -1,   125,    -1,    26,    -1,    -1,    -1,    -1,   132,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,   162,   163,
+     164,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,     0,    76,    -1,    78,    79,    -1,    81,    82,
+      83,     9,   194,   195,    -1,   197,   198,    -1,    -1,   193,
+      -1,   195,    95,   197,   198,    -1,    99,   100,    26,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     113,    -1,    -1,    -1,    -1,    -1,   119,    45,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,   131,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,     9,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    26,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    55,    -1,
+      -1,   119,   195,    -1,   197,   198,    -1,    -1,    -1,    66,
+      -1,    -1,    69,   131,    71,    72,    -1,    -1,     0,    76,
+      -1,    78,    79,    -1,    81,    82,    83,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,
+      -1,    -1,    99,   100,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,
+      -1,    -1,   119,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    55,   131,    -1,    -1,   195,    -1,   197,
+     198,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,     0,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,    -1,   119,   195,    -1,
+     197,   198,    -1,    45,    -1,    -1,    -1,    -1,    -1,   131,
+      -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,     9,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,   195,    55,   197,   198,   119,    -1,     3,
+       4,     5,     6,    -1,    -1,    66,    -1,    -1,    69,   131,
+      71,    72,    -1,    -1,     0,    76,    -1,    78,    79,    -1,
+      81,    82,    83,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,
+      26,    -1,    46,    47,    48,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
+     131,    -1,    -1,   195,    -1,   197,   198,    -1,    -1,    -1,
+      66,    85,    -1,    69,    88,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,     0,    81,    82,    83,    -1,    -1,
+     104,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    95,
+      -1,   115,    -1,    99,   100,    -1,    -1,   121,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,
+      -1,   135,    -1,   119,   195,    -1,   197,   198,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,   131,   150,   151,   152,    55,
+      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,     9,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    26,   186,   187,    -1,    -1,    -1,    -1,    -1,    95,
+     194,    -1,    -1,    99,   100,   199,    -1,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,   195,
+      55,   197,   198,   119,    -1,     3,     4,     5,     6,    -1,
+      -1,    66,    -1,    -1,    69,   131,    71,    72,    -1,    -1,
+       0,    76,    -1,    78,    79,    -1,    81,    82,    83,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      95,    -1,    -1,    -1,    99,   100,    26,    -1,    46,    47,
+      48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,
+      -1,    -1,    -1,    -1,   119,    45,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    55,   131,    -1,    -1,   195,
+      -1,   197,   198,    -1,    -1,    -1,    66,    85,    -1,    69,
+      88,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+       0,    81,    82,    83,    -1,    -1,   104,    -1,    -1,     9,
+      -1,    -1,    -1,    -1,   112,    95,    -1,    -1,    -1,    99,
+     100,    -1,    -1,   121,    -1,    -1,    26,    -1,    -1,    -1,
+      -1,    -1,    -1,   113,    -1,    -1,    -1,   135,    -1,   119,
+     195,    -1,   197,   198,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,   131,   150,   151,   152,    55,    -1,    -1,    -1,    -1,
+      -1,     0,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+       9,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    26,   186,   187,
+      -1,    -1,    -1,    -1,    -1,    95,   194,    -1,    -1,    99,
+     100,   199,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    -1,   113,    -1,   195,    55,   197,   198,   119,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,   131,    71,    72,    -1,    -1,     0,    76,    -1,    78,
+      79,    -1,    81,    -1,    83,     9,    -1,    -1,    -1,     0,
+      -1,    -1,    -1,    -1,    -1,    -1,    95,    -1,     9,    -1,
+      99,   100,    26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,
+     119,    45,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    55,    -1,    -1,    45,   195,    -1,   197,   198,    -1,
+      51,    -1,    66,    -1,    55,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    69,    83,
+      -1,    72,    -1,    -1,     0,    76,    -1,    -1,    -1,    -1,
+      81,    95,    83,     9,    -1,    99,   100,    -1,    -1,    -1,
+      -1,    -1,    -1,    94,    -1,    -1,    -1,    -1,    -1,   113,
+      -1,    -1,    -1,    -1,    -1,   119,   195,    -1,   197,   198,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    -1,    55,
+      -1,     0,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    69,    -1,    -1,    72,    -1,    -1,    -1,
+      76,    -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    -1,
+      -1,   162,   163,   164,    -1,    -1,    -1,    -1,    94,    -1,
+      -1,     0,    -1,    -1,    -1,    -1,    45,    -1,    -1,     0,
+       9,   195,    51,   197,   198,    -1,    55,   113,     9,    -1,
+      -1,    -1,   193,   119,   195,    -1,   197,   198,    -1,    -1,
+      69,    -1,    -1,    72,    -1,    -1,    -1,    76,    -1,    -1,
+      -1,    -1,    81,    -1,    83,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    45,    94,    55,    -1,    -1,    -1,
+      51,    -1,    -1,     0,    55,    -1,   162,   163,   164,    -1,
+      69,    -1,     9,    72,   113,    -1,    -1,    76,    69,    -1,
+     119,    72,    81,    -1,    83,    76,    -1,    -1,    -1,    -1,
+      81,    -1,    83,    -1,    -1,    94,    -1,   193,     0,   195,
+      -1,   197,   198,    94,    -1,    -1,    -1,     9,    45,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    55,    -1,
+     119,    -1,   113,   162,   163,   164,    -1,    -1,   119,    -1,
+      -1,    -1,    69,    -1,    -1,    72,    -1,    -1,    -1,    76,
+       0,    -1,    -1,    45,    81,    -1,    83,    -1,    -1,     9,
+      -1,    -1,    -1,    55,   193,    -1,   195,    94,   197,   198,
+       0,    -1,    -1,   162,   163,   164,    -1,    69,    -1,     9,
+      72,   162,   163,   164,    76,    -1,   113,    -1,    -1,    81,
+      -1,    83,   119,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    -1,    94,    -1,   193,    55,   195,    -1,   197,   198,
+      -1,    -1,   193,    -1,   195,    45,   197,   198,    -1,    69,
+      -1,   113,    72,    -1,    -1,    55,    76,   119,    -1,    -1,
+      -1,    81,    -1,    83,    -1,     0,    -1,    -1,    -1,    69,
+      -1,    -1,    72,    -1,     9,    -1,    76,    -1,    -1,    -1,
+      -1,    81,    -1,    83,    -1,     3,     4,     5,     6,    -1,
+      -1,    -1,    -1,   113,    12,    -1,    -1,    -1,   195,   119,
+     197,   198,    -1,    -1,    -1,    -1,     3,     4,     5,     6,
+      45,    -1,    -1,   113,    -1,    12,    -1,    -1,    -1,   119,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,    -1,    -1,   195,    69,   197,    -1,    72,    -1,    -1,
+      -1,    76,    -1,    -1,    -1,    -1,    81,    -1,    83,    46,
+      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,    -1,    -1,    -1,   195,    -1,   197,   113,    -1,
+      -1,    -1,    -1,    -1,   119,    -1,   104,    -1,    85,    -1,
+      -1,    88,    -1,    -1,    -1,   195,    -1,   197,    -1,    -1,
+      -1,    -1,    -1,   121,    -1,    -1,   124,   104,    -1,    -1,
+      -1,    -1,    -1,     3,     4,     5,     6,   135,    -1,    -1,
+      -1,    -1,    12,    -1,   121,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,    -1,   135,     3,
+       4,     5,     6,    -1,    -1,    -1,    -1,    -1,    12,    -1,
+      -1,    -1,    -1,   150,   151,   152,    46,    47,    48,    -1,
+     195,    -1,   197,    -1,    -1,    -1,    -1,    -1,   186,   187,
+      -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,    -1,    -1,
+      -1,   199,    46,    47,    48,    -1,    -1,    -1,    -1,   186,
+     187,    -1,    -1,    -1,    -1,    85,   193,   194,    88,    -1,
+      -1,    -1,   199,    -1,    -1,    -1,    -1,     3,     4,     5,
+       6,    -1,    -1,    -1,   104,    -1,    12,    -1,    -1,    -1,
+      -1,    85,    -1,    -1,    88,     3,     4,     5,     6,    -1,
+      -1,   121,    -1,    -1,    12,     3,     4,     5,     6,    -1,
+     104,    -1,    -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,
+      46,    47,    48,    -1,    -1,    -1,    -1,   121,    -1,    -1,
+     150,   151,   152,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,   135,    -1,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,    -1,    -1,    -1,    -1,    -1,   150,   151,   152,    85,
+      58,    -1,    88,    -1,    -1,    -1,   186,   187,    -1,    -1,
+      -1,    -1,    -1,    -1,   194,   195,    -1,    85,   104,   199,
+      88,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,   186,   187,    -1,   121,   104,    -1,    -1,    -1,
+     194,   195,    -1,    -1,    -1,   199,   104,    -1,    -1,   135,
+      -1,    -1,    -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   121,   150,   151,   152,   135,    -1,    -1,
+      -1,     3,     4,     5,     6,    -1,    -1,   135,    -1,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,     3,     4,     5,     6,    -1,
+     186,   187,    -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,
+      -1,    -1,    -1,   199,    46,    47,    48,    -1,   186,   187,
+      -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,   186,   187,
+      -1,   199,    -1,    -1,    -1,    -1,   194,    -1,    46,    47,
+      48,   199,    -1,    -1,    -1,    -1,    -1,    -1,     3,     4,
+       5,     6,    -1,    85,    -1,    -1,    88,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   104,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   121,
+      -1,    46,    47,    48,    -1,    -1,   104,    -1,    -1,    -1,
+      -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,     3,     4,
+       5,     6,    -1,   121,    -1,    -1,    -1,    -1,   150,   151,
+     152,    -1,    -1,    -1,    -1,    -1,    -1,   135,    -1,    -1,
+      85,    -1,    -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,    -1,    -1,   104,
+      -1,    -1,    47,    48,   186,   187,    -1,    -1,    -1,    -1,
+      -1,    -1,   194,    -1,    -1,    -1,   121,   199,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   186,   187,
+     135,    -1,    -1,    -1,    -1,    -1,   194,    -1,    -1,    -1,
+      85,   199,    -1,    88,    -1,   150,   151,   152,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,   104,
+      -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    15,    -1,    -1,    -1,    -1,   121,    -1,    22,    -1,
+      -1,   186,   187,    27,    -1,    -1,    -1,    -1,    -1,   194,
+     135,    -1,    -1,    37,   199,    -1,    40,    41,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   150,   151,   152,    52,    53,
+      -1,    -1,    -1,    -1,    58,    -1,    -1,    -1,    62,    -1,
+      -1,    65,    -1,    -1,    -1,     7,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    15,    -1,    -1,    -1,    -1,    -1,    -1,
+      22,   186,   187,    87,    -1,    27,    -1,    91,    -1,   194,
+      -1,    -1,    -1,    -1,   199,    37,    -1,    -1,    40,    41,
+      -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,    -1,   113,
+      52,    53,    -1,    -1,    -1,    -1,    58,    -1,    -1,    -1,
+      62,    -1,    -1,    65,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    87,    -1,    -1,    -1,    91,
+      -1,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   107,    -1,    -1,    -1,    -1,
+      -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     194,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   155,   156,   157,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   194
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
@@ -2091,31 +6147,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 194 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2097 "bison_parser.cpp"
+#line 6153 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 194 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2103 "bison_parser.cpp"
+#line 6159 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2109 "bison_parser.cpp"
+#line 6165 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2115 "bison_parser.cpp"
+#line 6171 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -2124,23 +6180,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 2128 "bison_parser.cpp"
+#line 6184 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 2134 "bison_parser.cpp"
+#line 6190 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 2140 "bison_parser.cpp"
+#line 6196 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2149,11 +6205,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2153 "bison_parser.cpp"
+#line 6209 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2162,104 +6218,104 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2166 "bison_parser.cpp"
+#line 6222 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2172 "bison_parser.cpp"
+#line 6228 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 2178 "bison_parser.cpp"
+#line 6234 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 2184 "bison_parser.cpp"
+#line 6240 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 194 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2190 "bison_parser.cpp"
+#line 6246 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 2196 "bison_parser.cpp"
+#line 6252 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 2202 "bison_parser.cpp"
+#line 6258 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2208 "bison_parser.cpp"
+#line 6264 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 194 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2214 "bison_parser.cpp"
+#line 6270 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 2220 "bison_parser.cpp"
+#line 6276 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 2226 "bison_parser.cpp"
+#line 6282 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 203 "bison_parser.y"
+#line 208 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 2235 "bison_parser.cpp"
+#line 6291 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 2241 "bison_parser.cpp"
+#line 6297 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 2247 "bison_parser.cpp"
+#line 6303 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 2253 "bison_parser.cpp"
+#line 6309 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2259 "bison_parser.cpp"
+#line 6315 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -2268,119 +6324,119 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 2272 "bison_parser.cpp"
+#line 6328 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 2278 "bison_parser.cpp"
+#line 6334 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 2284 "bison_parser.cpp"
+#line 6340 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2290 "bison_parser.cpp"
+#line 6346 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2296 "bison_parser.cpp"
+#line 6352 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 2302 "bison_parser.cpp"
+#line 6358 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).column_constraints_t)); }
-#line 2308 "bison_parser.cpp"
+#line 6364 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).column_constraints_t)); }
-#line 2314 "bison_parser.cpp"
+#line 6370 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2320 "bison_parser.cpp"
+#line 6376 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 2326 "bison_parser.cpp"
+#line 6382 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 2332 "bison_parser.cpp"
+#line 6388 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 2338 "bison_parser.cpp"
+#line 6394 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2344 "bison_parser.cpp"
+#line 6400 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 2350 "bison_parser.cpp"
+#line 6406 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 2356 "bison_parser.cpp"
+#line 6412 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 2362 "bison_parser.cpp"
+#line 6418 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 2368 "bison_parser.cpp"
+#line 6424 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 2374 "bison_parser.cpp"
+#line 6430 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 2380 "bison_parser.cpp"
+#line 6436 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 186 "bison_parser.y"
+#line 191 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -2389,17 +6445,17 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2393 "bison_parser.cpp"
+#line 6449 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 2399 "bison_parser.cpp"
+#line 6455 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).update_vec)) {
     for (auto ptr : *(((*yyvaluep).update_vec))) {
@@ -2408,77 +6464,77 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 2412 "bison_parser.cpp"
+#line 6468 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).update_t)); }
-#line 2418 "bison_parser.cpp"
+#line 6474 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2424 "bison_parser.cpp"
+#line 6480 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2430 "bison_parser.cpp"
+#line 6486 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2436 "bison_parser.cpp"
+#line 6492 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2442 "bison_parser.cpp"
+#line 6498 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2448 "bison_parser.cpp"
+#line 6504 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 2454 "bison_parser.cpp"
+#line 6510 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 2460 "bison_parser.cpp"
+#line 6516 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2466 "bison_parser.cpp"
+#line 6522 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2472 "bison_parser.cpp"
+#line 6528 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2478 "bison_parser.cpp"
+#line 6534 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2487,41 +6543,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2491 "bison_parser.cpp"
+#line 6547 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2497 "bison_parser.cpp"
+#line 6553 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2503 "bison_parser.cpp"
+#line 6559 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2509 "bison_parser.cpp"
+#line 6565 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 2515 "bison_parser.cpp"
+#line 6571 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2521 "bison_parser.cpp"
+#line 6577 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -2530,11 +6586,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2534 "bison_parser.cpp"
+#line 6590 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -2543,41 +6599,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2547 "bison_parser.cpp"
+#line 6603 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 2553 "bison_parser.cpp"
+#line 6609 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2559 "bison_parser.cpp"
+#line 6615 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2565 "bison_parser.cpp"
+#line 6621 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 2571 "bison_parser.cpp"
+#line 6627 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 2577 "bison_parser.cpp"
+#line 6633 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2586,11 +6642,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2590 "bison_parser.cpp"
+#line 6646 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2599,11 +6655,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2603 "bison_parser.cpp"
+#line 6659 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2612,107 +6668,107 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2616 "bison_parser.cpp"
+#line 6672 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2622 "bison_parser.cpp"
+#line 6678 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2628 "bison_parser.cpp"
+#line 6684 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2634 "bison_parser.cpp"
+#line 6690 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2640 "bison_parser.cpp"
+#line 6696 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2646 "bison_parser.cpp"
+#line 6702 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2652 "bison_parser.cpp"
+#line 6708 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2658 "bison_parser.cpp"
+#line 6714 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2664 "bison_parser.cpp"
+#line 6720 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2670 "bison_parser.cpp"
+#line 6726 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2676 "bison_parser.cpp"
+#line 6732 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2682 "bison_parser.cpp"
+#line 6738 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2688 "bison_parser.cpp"
+#line 6744 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2694 "bison_parser.cpp"
+#line 6750 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2700 "bison_parser.cpp"
+#line 6756 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2706 "bison_parser.cpp"
+#line 6762 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 2712 "bison_parser.cpp"
+#line 6768 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2721,155 +6777,155 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2725 "bison_parser.cpp"
+#line 6781 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 2731 "bison_parser.cpp"
+#line 6787 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2737 "bison_parser.cpp"
+#line 6793 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 2743 "bison_parser.cpp"
+#line 6799 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2749 "bison_parser.cpp"
+#line 6805 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2755 "bison_parser.cpp"
+#line 6811 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2761 "bison_parser.cpp"
+#line 6817 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2767 "bison_parser.cpp"
+#line 6823 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2773 "bison_parser.cpp"
+#line 6829 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2779 "bison_parser.cpp"
+#line 6835 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2785 "bison_parser.cpp"
+#line 6841 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2791 "bison_parser.cpp"
+#line 6847 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2797 "bison_parser.cpp"
+#line 6853 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2803 "bison_parser.cpp"
+#line 6859 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2809 "bison_parser.cpp"
+#line 6865 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2815 "bison_parser.cpp"
+#line 6871 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2821 "bison_parser.cpp"
+#line 6877 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2827 "bison_parser.cpp"
+#line 6883 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2833 "bison_parser.cpp"
+#line 6889 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2839 "bison_parser.cpp"
+#line 6895 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2845 "bison_parser.cpp"
+#line 6901 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2851 "bison_parser.cpp"
+#line 6907 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2857 "bison_parser.cpp"
+#line 6913 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2863 "bison_parser.cpp"
+#line 6919 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2869 "bison_parser.cpp"
+#line 6925 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -2878,62 +6934,62 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 2882 "bison_parser.cpp"
+#line 6938 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2888 "bison_parser.cpp"
+#line 6944 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2894 "bison_parser.cpp"
+#line 6950 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 182 "bison_parser.y"
+#line 187 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 2903 "bison_parser.cpp"
+#line 6959 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 194 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2909 "bison_parser.cpp"
+#line 6965 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2915 "bison_parser.cpp"
+#line 6971 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2921 "bison_parser.cpp"
+#line 6977 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2927 "bison_parser.cpp"
+#line 6983 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2933 "bison_parser.cpp"
+#line 6989 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -2942,11 +6998,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 2946 "bison_parser.cpp"
+#line 7002 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -2955,29 +7011,29 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 2959 "bison_parser.cpp"
+#line 7015 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).locking_t)); }
-#line 2965 "bison_parser.cpp"
+#line 7021 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2971 "bison_parser.cpp"
+#line 7027 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 2977 "bison_parser.cpp"
+#line 7033 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -2986,11 +7042,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 2990 "bison_parser.cpp"
+#line 7046 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -2999,11 +7055,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 3003 "bison_parser.cpp"
+#line 7059 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 195 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -3012,35 +7068,35 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 3016 "bison_parser.cpp"
+#line 7072 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 3022 "bison_parser.cpp"
+#line 7078 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3028 "bison_parser.cpp"
+#line 7084 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 181 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3034 "bison_parser.cpp"
+#line 7090 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 207 "bison_parser.y"
+#line 212 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3040 "bison_parser.cpp"
+#line 7096 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 186 "bison_parser.y"
+#line 191 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -3049,7 +7105,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3053 "bison_parser.cpp"
+#line 7109 "bison_parser.cpp"
         break;
 
       default:
@@ -3146,7 +7202,7 @@ YYLTYPE yylloc = yyloc_default;
 
 
 /* User initialization code.  */
-#line 81 "bison_parser.y"
+#line 86 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -3157,7 +7213,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 3161 "bison_parser.cpp"
+#line 7217 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -3368,7 +7424,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 346 "bison_parser.y"
+#line 351 "bison_parser.y"
                                      {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
@@ -3386,236 +7442,236 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3390 "bison_parser.cpp"
+#line 7446 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 365 "bison_parser.y"
+#line 370 "bison_parser.y"
                            {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3401 "bison_parser.cpp"
+#line 7457 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 371 "bison_parser.y"
+#line 376 "bison_parser.y"
                                {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3412 "bison_parser.cpp"
+#line 7468 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 378 "bison_parser.y"
+#line 383 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3421 "bison_parser.cpp"
+#line 7477 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 382 "bison_parser.y"
+#line 387 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3430 "bison_parser.cpp"
+#line 7486 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 386 "bison_parser.y"
+#line 391 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3436 "bison_parser.cpp"
+#line 7492 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 387 "bison_parser.y"
+#line 392 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3442 "bison_parser.cpp"
+#line 7498 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 388 "bison_parser.y"
+#line 393 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3448 "bison_parser.cpp"
+#line 7504 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 390 "bison_parser.y"
+#line 395 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3454 "bison_parser.cpp"
+#line 7510 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 391 "bison_parser.y"
+#line 396 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3460 "bison_parser.cpp"
+#line 7516 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 392 "bison_parser.y"
+#line 397 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3466 "bison_parser.cpp"
+#line 7522 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 393 "bison_parser.y"
+#line 398 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3472 "bison_parser.cpp"
+#line 7528 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 394 "bison_parser.y"
+#line 399 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3478 "bison_parser.cpp"
+#line 7534 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 395 "bison_parser.y"
+#line 400 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3484 "bison_parser.cpp"
+#line 7540 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 396 "bison_parser.y"
+#line 401 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3490 "bison_parser.cpp"
+#line 7546 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 397 "bison_parser.y"
+#line 402 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3496 "bison_parser.cpp"
+#line 7552 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 398 "bison_parser.y"
+#line 403 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3502 "bison_parser.cpp"
+#line 7558 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 399 "bison_parser.y"
+#line 404 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3508 "bison_parser.cpp"
+#line 7564 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 405 "bison_parser.y"
+#line 410 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3514 "bison_parser.cpp"
+#line 7570 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 406 "bison_parser.y"
+#line 411 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 3520 "bison_parser.cpp"
+#line 7576 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 408 "bison_parser.y"
+#line 413 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3529 "bison_parser.cpp"
+#line 7585 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 412 "bison_parser.y"
+#line 417 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3538 "bison_parser.cpp"
+#line 7594 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 417 "bison_parser.y"
+#line 422 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3547 "bison_parser.cpp"
+#line 7603 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 421 "bison_parser.y"
+#line 426 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3557 "bison_parser.cpp"
+#line 7613 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 431 "bison_parser.y"
+#line 436 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3563 "bison_parser.cpp"
+#line 7619 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 432 "bison_parser.y"
+#line 437 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3569 "bison_parser.cpp"
+#line 7625 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 433 "bison_parser.y"
+#line 438 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3575 "bison_parser.cpp"
+#line 7631 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 441 "bison_parser.y"
+#line 446 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3585 "bison_parser.cpp"
+#line 7641 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 449 "bison_parser.y"
+#line 454 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3594 "bison_parser.cpp"
+#line 7650 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 453 "bison_parser.y"
+#line 458 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3604 "bison_parser.cpp"
+#line 7660 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 465 "bison_parser.y"
+#line 470 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3615 "bison_parser.cpp"
+#line 7671 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 471 "bison_parser.y"
+#line 476 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -3632,11 +7688,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3636 "bison_parser.cpp"
+#line 7692 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 488 "bison_parser.y"
+#line 493 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -3651,35 +7707,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3655 "bison_parser.cpp"
+#line 7711 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 503 "bison_parser.y"
+#line 508 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3661 "bison_parser.cpp"
+#line 7717 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 505 "bison_parser.y"
+#line 510 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3667 "bison_parser.cpp"
+#line 7723 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 506 "bison_parser.y"
+#line 511 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3673 "bison_parser.cpp"
+#line 7729 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 507 "bison_parser.y"
+#line 512 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3679 "bison_parser.cpp"
+#line 7735 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 509 "bison_parser.y"
+#line 514 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -3694,20 +7750,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3698 "bison_parser.cpp"
+#line 7754 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 523 "bison_parser.y"
+#line 528 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3707 "bison_parser.cpp"
+#line 7763 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 527 "bison_parser.y"
+#line 532 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -3718,20 +7774,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3722 "bison_parser.cpp"
+#line 7778 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 537 "bison_parser.y"
+#line 542 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3731 "bison_parser.cpp"
+#line 7787 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 541 "bison_parser.y"
+#line 546 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -3756,11 +7812,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3760 "bison_parser.cpp"
+#line 7816 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 565 "bison_parser.y"
+#line 570 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -3768,11 +7824,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3772 "bison_parser.cpp"
+#line 7828 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 573 "bison_parser.y"
+#line 578 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -3786,17 +7842,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3790 "bison_parser.cpp"
+#line 7846 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 586 "bison_parser.y"
+#line 591 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3796 "bison_parser.cpp"
+#line 7852 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 593 "bison_parser.y"
+#line 598 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -3812,11 +7868,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3816 "bison_parser.cpp"
+#line 7872 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 608 "bison_parser.y"
+#line 613 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -3831,37 +7887,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3835 "bison_parser.cpp"
+#line 7891 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 628 "bison_parser.y"
+#line 633 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3841 "bison_parser.cpp"
+#line 7897 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 629 "bison_parser.y"
+#line 634 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3851 "bison_parser.cpp"
+#line 7907 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 634 "bison_parser.y"
+#line 639 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3861 "bison_parser.cpp"
+#line 7917 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 645 "bison_parser.y"
+#line 650 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
@@ -3877,11 +7933,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3881 "bison_parser.cpp"
+#line 7937 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 660 "bison_parser.y"
+#line 665 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3890,11 +7946,11 @@ yyreduce:
   (yyval.create_stmt)->setColumnDefsAndConstraints((yyvsp[-1].table_element_vec));
   delete (yyvsp[-1].table_element_vec);
 }
-#line 3894 "bison_parser.cpp"
+#line 7950 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 668 "bison_parser.y"
+#line 673 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -3902,11 +7958,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3906 "bison_parser.cpp"
+#line 7962 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 675 "bison_parser.y"
+#line 680 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -3915,11 +7971,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3919 "bison_parser.cpp"
+#line 7975 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 683 "bison_parser.y"
+#line 688 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3928,53 +7984,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3932 "bison_parser.cpp"
+#line 7988 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 692 "bison_parser.y"
+#line 697 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3938 "bison_parser.cpp"
+#line 7994 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 693 "bison_parser.y"
+#line 698 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3944 "bison_parser.cpp"
+#line 8000 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 695 "bison_parser.y"
+#line 700 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3953 "bison_parser.cpp"
+#line 8009 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 699 "bison_parser.y"
+#line 704 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3962 "bison_parser.cpp"
+#line 8018 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 704 "bison_parser.y"
+#line 709 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3968 "bison_parser.cpp"
+#line 8024 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 705 "bison_parser.y"
+#line 710 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3974 "bison_parser.cpp"
+#line 8030 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 707 "bison_parser.y"
+#line 712 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   // The column definition owns the constraints and references.
@@ -3987,192 +8043,192 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3991 "bison_parser.cpp"
+#line 8047 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 720 "bison_parser.y"
+#line 725 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3997 "bison_parser.cpp"
+#line 8053 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 721 "bison_parser.y"
+#line 726 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 4003 "bison_parser.cpp"
+#line 8059 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 722 "bison_parser.y"
+#line 727 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 4009 "bison_parser.cpp"
+#line 8065 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 723 "bison_parser.y"
+#line 728 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4015 "bison_parser.cpp"
+#line 8071 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 724 "bison_parser.y"
+#line 729 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 4021 "bison_parser.cpp"
+#line 8077 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 725 "bison_parser.y"
+#line 730 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4027 "bison_parser.cpp"
+#line 8083 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 726 "bison_parser.y"
+#line 731 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 4036 "bison_parser.cpp"
+#line 8092 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 730 "bison_parser.y"
+#line 735 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4042 "bison_parser.cpp"
+#line 8098 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 731 "bison_parser.y"
+#line 736 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4048 "bison_parser.cpp"
+#line 8104 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 732 "bison_parser.y"
+#line 737 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4054 "bison_parser.cpp"
+#line 8110 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 733 "bison_parser.y"
+#line 738 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4060 "bison_parser.cpp"
+#line 8116 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 734 "bison_parser.y"
+#line 739 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4066 "bison_parser.cpp"
+#line 8122 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 735 "bison_parser.y"
+#line 740 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4072 "bison_parser.cpp"
+#line 8128 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 736 "bison_parser.y"
+#line 741 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4078 "bison_parser.cpp"
+#line 8134 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 737 "bison_parser.y"
+#line 742 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4084 "bison_parser.cpp"
+#line 8140 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 738 "bison_parser.y"
+#line 743 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4090 "bison_parser.cpp"
+#line 8146 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 739 "bison_parser.y"
+#line 744 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4096 "bison_parser.cpp"
+#line 8152 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 740 "bison_parser.y"
+#line 745 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4102 "bison_parser.cpp"
+#line 8158 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 742 "bison_parser.y"
+#line 747 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4108 "bison_parser.cpp"
+#line 8164 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 743 "bison_parser.y"
+#line 748 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4114 "bison_parser.cpp"
+#line 8170 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 745 "bison_parser.y"
+#line 750 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4120 "bison_parser.cpp"
+#line 8176 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 746 "bison_parser.y"
+#line 751 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4126 "bison_parser.cpp"
+#line 8182 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 747 "bison_parser.y"
+#line 752 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4132 "bison_parser.cpp"
+#line 8188 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 749 "bison_parser.y"
+#line 754 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4138 "bison_parser.cpp"
+#line 8194 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 750 "bison_parser.y"
+#line 755 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4144 "bison_parser.cpp"
+#line 8200 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 752 "bison_parser.y"
+#line 757 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4153 "bison_parser.cpp"
+#line 8209 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 756 "bison_parser.y"
+#line 761 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4162 "bison_parser.cpp"
+#line 8218 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 760 "bison_parser.y"
+#line 765 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4172 "bison_parser.cpp"
+#line 8228 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 765 "bison_parser.y"
+#line 770 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4180,159 +8236,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4184 "bison_parser.cpp"
+#line 8240 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 773 "bison_parser.y"
+#line 778 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4190 "bison_parser.cpp"
+#line 8246 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 774 "bison_parser.y"
+#line 779 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4196 "bison_parser.cpp"
+#line 8252 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 775 "bison_parser.y"
+#line 780 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4202 "bison_parser.cpp"
+#line 8258 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 776 "bison_parser.y"
+#line 781 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4208 "bison_parser.cpp"
+#line 8264 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 778 "bison_parser.y"
+#line 783 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4214 "bison_parser.cpp"
+#line 8270 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 779 "bison_parser.y"
+#line 784 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4220 "bison_parser.cpp"
+#line 8276 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 780 "bison_parser.y"
+#line 785 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4226 "bison_parser.cpp"
+#line 8282 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 782 "bison_parser.y"
+#line 787 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4232 "bison_parser.cpp"
+#line 8288 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 790 "bison_parser.y"
+#line 795 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4243 "bison_parser.cpp"
+#line 8299 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 796 "bison_parser.y"
+#line 801 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4254 "bison_parser.cpp"
+#line 8310 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 802 "bison_parser.y"
+#line 807 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4264 "bison_parser.cpp"
+#line 8320 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 808 "bison_parser.y"
+#line 813 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4274 "bison_parser.cpp"
+#line 8330 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 814 "bison_parser.y"
+#line 819 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4280 "bison_parser.cpp"
+#line 8336 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 815 "bison_parser.y"
+#line 820 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4286 "bison_parser.cpp"
+#line 8342 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 822 "bison_parser.y"
+#line 827 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4296 "bison_parser.cpp"
+#line 8352 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 828 "bison_parser.y"
+#line 833 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4302 "bison_parser.cpp"
+#line 8358 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 830 "bison_parser.y"
+#line 835 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4311 "bison_parser.cpp"
+#line 8367 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 840 "bison_parser.y"
+#line 845 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4322 "bison_parser.cpp"
+#line 8378 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 847 "bison_parser.y"
+#line 852 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4332 "bison_parser.cpp"
+#line 8388 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 858 "bison_parser.y"
+#line 863 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4340,11 +8396,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4344 "bison_parser.cpp"
+#line 8400 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 865 "bison_parser.y"
+#line 870 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4352,80 +8408,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4356 "bison_parser.cpp"
+#line 8412 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 873 "bison_parser.y"
+#line 878 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4362 "bison_parser.cpp"
+#line 8418 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 874 "bison_parser.y"
+#line 879 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4368 "bison_parser.cpp"
+#line 8424 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 881 "bison_parser.y"
+#line 886 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4379 "bison_parser.cpp"
+#line 8435 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 888 "bison_parser.y"
+#line 893 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4388 "bison_parser.cpp"
+#line 8444 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 892 "bison_parser.y"
+#line 897 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4397 "bison_parser.cpp"
+#line 8453 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 897 "bison_parser.y"
+#line 902 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4407 "bison_parser.cpp"
+#line 8463 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 907 "bison_parser.y"
+#line 912 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4416 "bison_parser.cpp"
+#line 8472 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 911 "bison_parser.y"
+#line 916 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4425 "bison_parser.cpp"
+#line 8481 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 915 "bison_parser.y"
+#line 920 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4437,17 +8493,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4441 "bison_parser.cpp"
+#line 8497 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 929 "bison_parser.y"
+#line 934 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4447 "bison_parser.cpp"
+#line 8503 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 930 "bison_parser.y"
+#line 935 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4456,23 +8512,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4460 "bison_parser.cpp"
+#line 8516 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 939 "bison_parser.y"
+#line 944 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4466 "bison_parser.cpp"
+#line 8522 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 940 "bison_parser.y"
+#line 945 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4472 "bison_parser.cpp"
+#line 8528 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 942 "bison_parser.y"
+#line 947 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4487,11 +8543,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4491 "bison_parser.cpp"
+#line 8547 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 956 "bison_parser.y"
+#line 961 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4503,59 +8559,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4507 "bison_parser.cpp"
+#line 8563 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 968 "bison_parser.y"
+#line 973 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4516 "bison_parser.cpp"
+#line 8572 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 973 "bison_parser.y"
+#line 978 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4525 "bison_parser.cpp"
+#line 8581 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 977 "bison_parser.y"
+#line 982 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4534 "bison_parser.cpp"
+#line 8590 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 981 "bison_parser.y"
+#line 986 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4543 "bison_parser.cpp"
+#line 8599 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 986 "bison_parser.y"
+#line 991 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4549 "bison_parser.cpp"
+#line 8605 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 987 "bison_parser.y"
+#line 992 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4555 "bison_parser.cpp"
+#line 8611 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 989 "bison_parser.y"
+#line 994 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4565,141 +8621,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4569 "bison_parser.cpp"
+#line 8625 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 999 "bison_parser.y"
+#line 1004 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4575 "bison_parser.cpp"
+#line 8631 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1000 "bison_parser.y"
+#line 1005 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4581 "bison_parser.cpp"
+#line 8637 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1004 "bison_parser.y"
+#line 1009 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4587 "bison_parser.cpp"
+#line 8643 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1005 "bison_parser.y"
+#line 1010 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4593 "bison_parser.cpp"
+#line 8649 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1007 "bison_parser.y"
+#line 1012 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4599 "bison_parser.cpp"
+#line 8655 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1009 "bison_parser.y"
+#line 1014 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4605 "bison_parser.cpp"
+#line 8661 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1010 "bison_parser.y"
+#line 1015 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4611 "bison_parser.cpp"
+#line 8667 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1012 "bison_parser.y"
+#line 1017 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4621 "bison_parser.cpp"
+#line 8677 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1017 "bison_parser.y"
+#line 1022 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4627 "bison_parser.cpp"
+#line 8683 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1019 "bison_parser.y"
+#line 1024 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4633 "bison_parser.cpp"
+#line 8689 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1020 "bison_parser.y"
+#line 1025 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4639 "bison_parser.cpp"
+#line 8695 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1022 "bison_parser.y"
+#line 1027 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4645 "bison_parser.cpp"
+#line 8701 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1023 "bison_parser.y"
+#line 1028 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4651 "bison_parser.cpp"
+#line 8707 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1025 "bison_parser.y"
+#line 1030 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4660 "bison_parser.cpp"
+#line 8716 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1029 "bison_parser.y"
+#line 1034 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4669 "bison_parser.cpp"
+#line 8725 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1034 "bison_parser.y"
+#line 1039 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4675 "bison_parser.cpp"
+#line 8731 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1036 "bison_parser.y"
+#line 1041 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4681 "bison_parser.cpp"
+#line 8737 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1037 "bison_parser.y"
+#line 1042 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4687 "bison_parser.cpp"
+#line 8743 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1038 "bison_parser.y"
+#line 1043 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4693 "bison_parser.cpp"
+#line 8749 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1040 "bison_parser.y"
+#line 1045 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4699 "bison_parser.cpp"
+#line 8755 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1041 "bison_parser.y"
+#line 1046 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4719,115 +8775,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4723 "bison_parser.cpp"
+#line 8779 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1063 "bison_parser.y"
+#line 1068 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4729 "bison_parser.cpp"
+#line 8785 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1064 "bison_parser.y"
+#line 1069 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4735 "bison_parser.cpp"
+#line 8791 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1066 "bison_parser.y"
+#line 1071 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4741 "bison_parser.cpp"
+#line 8797 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1067 "bison_parser.y"
+#line 1072 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4747 "bison_parser.cpp"
+#line 8803 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1068 "bison_parser.y"
+#line 1073 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4753 "bison_parser.cpp"
+#line 8809 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1069 "bison_parser.y"
+#line 1074 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4759 "bison_parser.cpp"
+#line 8815 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1070 "bison_parser.y"
+#line 1075 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4765 "bison_parser.cpp"
+#line 8821 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1071 "bison_parser.y"
+#line 1076 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4771 "bison_parser.cpp"
+#line 8827 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1076 "bison_parser.y"
+#line 1081 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4780 "bison_parser.cpp"
+#line 8836 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1080 "bison_parser.y"
+#line 1085 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4789 "bison_parser.cpp"
+#line 8845 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1086 "bison_parser.y"
+#line 1091 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4795 "bison_parser.cpp"
+#line 8851 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1087 "bison_parser.y"
+#line 1092 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4801 "bison_parser.cpp"
+#line 8857 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1089 "bison_parser.y"
+#line 1094 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4810 "bison_parser.cpp"
+#line 8866 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1093 "bison_parser.y"
+#line 1098 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4819 "bison_parser.cpp"
+#line 8875 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1098 "bison_parser.y"
+#line 1103 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4827 "bison_parser.cpp"
+#line 8883 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1102 "bison_parser.y"
+#line 1107 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4836,23 +8892,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4840 "bison_parser.cpp"
+#line 8896 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1110 "bison_parser.y"
+#line 1115 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4846 "bison_parser.cpp"
+#line 8902 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1111 "bison_parser.y"
+#line 1116 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4852 "bison_parser.cpp"
+#line 8908 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1113 "bison_parser.y"
+#line 1118 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4861,522 +8917,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4865 "bison_parser.cpp"
+#line 8921 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1124 "bison_parser.y"
+#line 1129 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4871 "bison_parser.cpp"
+#line 8927 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1126 "bison_parser.y"
+#line 1131 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4879 "bison_parser.cpp"
+#line 8935 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1132 "bison_parser.y"
+#line 1137 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4885 "bison_parser.cpp"
+#line 8941 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1133 "bison_parser.y"
+#line 1138 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4891 "bison_parser.cpp"
+#line 8947 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1134 "bison_parser.y"
+#line 1139 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4897 "bison_parser.cpp"
+#line 8953 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1135 "bison_parser.y"
+#line 1140 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4903 "bison_parser.cpp"
+#line 8959 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1136 "bison_parser.y"
+#line 1141 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4909 "bison_parser.cpp"
+#line 8965 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1138 "bison_parser.y"
+#line 1143 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4915 "bison_parser.cpp"
+#line 8971 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1139 "bison_parser.y"
+#line 1144 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4921 "bison_parser.cpp"
+#line 8977 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1140 "bison_parser.y"
+#line 1145 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4927 "bison_parser.cpp"
+#line 8983 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1141 "bison_parser.y"
+#line 1146 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4933 "bison_parser.cpp"
+#line 8989 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1142 "bison_parser.y"
+#line 1147 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4939 "bison_parser.cpp"
+#line 8995 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1143 "bison_parser.y"
+#line 1148 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4945 "bison_parser.cpp"
+#line 9001 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1144 "bison_parser.y"
+#line 1149 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4951 "bison_parser.cpp"
+#line 9007 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1145 "bison_parser.y"
+#line 1150 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4957 "bison_parser.cpp"
+#line 9013 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1146 "bison_parser.y"
+#line 1151 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4963 "bison_parser.cpp"
+#line 9019 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1147 "bison_parser.y"
+#line 1152 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4969 "bison_parser.cpp"
+#line 9025 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1149 "bison_parser.y"
+#line 1154 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4975 "bison_parser.cpp"
+#line 9031 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1150 "bison_parser.y"
+#line 1155 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4981 "bison_parser.cpp"
+#line 9037 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1152 "bison_parser.y"
+#line 1157 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4987 "bison_parser.cpp"
+#line 9043 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1153 "bison_parser.y"
+#line 1158 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4993 "bison_parser.cpp"
+#line 9049 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1154 "bison_parser.y"
+#line 1159 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 4999 "bison_parser.cpp"
+#line 9055 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1155 "bison_parser.y"
+#line 1160 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 5005 "bison_parser.cpp"
+#line 9061 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1159 "bison_parser.y"
+#line 1164 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 5011 "bison_parser.cpp"
+#line 9067 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1160 "bison_parser.y"
+#line 1165 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5017 "bison_parser.cpp"
+#line 9073 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1161 "bison_parser.y"
+#line 1166 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 5023 "bison_parser.cpp"
+#line 9079 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1162 "bison_parser.y"
+#line 1167 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5029 "bison_parser.cpp"
+#line 9085 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1164 "bison_parser.y"
+#line 1169 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5035 "bison_parser.cpp"
+#line 9091 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1165 "bison_parser.y"
+#line 1170 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5041 "bison_parser.cpp"
+#line 9097 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1167 "bison_parser.y"
+#line 1172 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5047 "bison_parser.cpp"
+#line 9103 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1168 "bison_parser.y"
+#line 1173 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5053 "bison_parser.cpp"
+#line 9109 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1170 "bison_parser.y"
+#line 1175 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5059 "bison_parser.cpp"
+#line 9115 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1171 "bison_parser.y"
+#line 1176 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5065 "bison_parser.cpp"
+#line 9121 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1172 "bison_parser.y"
+#line 1177 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5071 "bison_parser.cpp"
+#line 9127 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1173 "bison_parser.y"
+#line 1178 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5077 "bison_parser.cpp"
+#line 9133 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1174 "bison_parser.y"
+#line 1179 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5083 "bison_parser.cpp"
+#line 9139 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1175 "bison_parser.y"
+#line 1180 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5089 "bison_parser.cpp"
+#line 9145 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1176 "bison_parser.y"
+#line 1181 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5095 "bison_parser.cpp"
+#line 9151 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1180 "bison_parser.y"
+#line 1185 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5101 "bison_parser.cpp"
+#line 9157 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1181 "bison_parser.y"
+#line 1186 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5107 "bison_parser.cpp"
+#line 9163 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1182 "bison_parser.y"
+#line 1187 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5113 "bison_parser.cpp"
+#line 9169 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1183 "bison_parser.y"
+#line 1188 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5119 "bison_parser.cpp"
+#line 9175 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1187 "bison_parser.y"
+#line 1192 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5125 "bison_parser.cpp"
+#line 9181 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1188 "bison_parser.y"
+#line 1193 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5131 "bison_parser.cpp"
+#line 9187 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1190 "bison_parser.y"
+#line 1195 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5137 "bison_parser.cpp"
+#line 9193 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1191 "bison_parser.y"
+#line 1196 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5143 "bison_parser.cpp"
+#line 9199 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1196 "bison_parser.y"
+#line 1201 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5149 "bison_parser.cpp"
+#line 9205 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1197 "bison_parser.y"
+#line 1202 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5155 "bison_parser.cpp"
+#line 9211 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1198 "bison_parser.y"
+#line 1203 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5163 "bison_parser.cpp"
+#line 9219 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1202 "bison_parser.y"
+#line 1207 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5169 "bison_parser.cpp"
+#line 9225 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1203 "bison_parser.y"
+#line 1208 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5175 "bison_parser.cpp"
+#line 9231 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1204 "bison_parser.y"
+#line 1209 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5181 "bison_parser.cpp"
+#line 9237 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1206 "bison_parser.y"
+#line 1211 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5187 "bison_parser.cpp"
+#line 9243 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1207 "bison_parser.y"
+#line 1212 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5193 "bison_parser.cpp"
+#line 9249 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1208 "bison_parser.y"
+#line 1213 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5199 "bison_parser.cpp"
+#line 9255 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1209 "bison_parser.y"
+#line 1214 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5205 "bison_parser.cpp"
+#line 9261 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1210 "bison_parser.y"
+#line 1215 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5211 "bison_parser.cpp"
+#line 9267 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1212 "bison_parser.y"
+#line 1217 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5217 "bison_parser.cpp"
+#line 9273 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1214 "bison_parser.y"
+#line 1219 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5223 "bison_parser.cpp"
+#line 9279 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1216 "bison_parser.y"
+#line 1221 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5229 "bison_parser.cpp"
+#line 9285 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1217 "bison_parser.y"
+#line 1222 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5235 "bison_parser.cpp"
+#line 9291 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1218 "bison_parser.y"
+#line 1223 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5241 "bison_parser.cpp"
+#line 9297 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1219 "bison_parser.y"
+#line 1224 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5247 "bison_parser.cpp"
+#line 9303 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1220 "bison_parser.y"
+#line 1225 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5253 "bison_parser.cpp"
+#line 9309 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1221 "bison_parser.y"
+#line 1226 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5259 "bison_parser.cpp"
+#line 9315 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1223 "bison_parser.y"
+#line 1228 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5265 "bison_parser.cpp"
+#line 9321 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1224 "bison_parser.y"
+#line 1229 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5271 "bison_parser.cpp"
+#line 9327 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1225 "bison_parser.y"
+#line 1230 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5277 "bison_parser.cpp"
+#line 9333 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1226 "bison_parser.y"
+#line 1231 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5283 "bison_parser.cpp"
+#line 9339 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1227 "bison_parser.y"
+#line 1232 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5289 "bison_parser.cpp"
+#line 9345 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1228 "bison_parser.y"
+#line 1233 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5295 "bison_parser.cpp"
+#line 9351 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1232 "bison_parser.y"
+#line 1237 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5301 "bison_parser.cpp"
+#line 9357 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1234 "bison_parser.y"
+#line 1239 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 5310 "bison_parser.cpp"
+#line 9366 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1239 "bison_parser.y"
+#line 1244 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5316 "bison_parser.cpp"
+#line 9372 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1241 "bison_parser.y"
+#line 1246 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5322 "bison_parser.cpp"
+#line 9378 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1242 "bison_parser.y"
+#line 1247 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5328 "bison_parser.cpp"
+#line 9384 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1243 "bison_parser.y"
+#line 1248 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5334 "bison_parser.cpp"
+#line 9390 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1244 "bison_parser.y"
+#line 1249 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5340 "bison_parser.cpp"
+#line 9396 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1248 "bison_parser.y"
+#line 1253 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5346 "bison_parser.cpp"
+#line 9402 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1250 "bison_parser.y"
+#line 1255 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5352 "bison_parser.cpp"
+#line 9408 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1251 "bison_parser.y"
+#line 1256 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5358 "bison_parser.cpp"
+#line 9414 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1253 "bison_parser.y"
+#line 1258 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5364 "bison_parser.cpp"
+#line 9420 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1256 "bison_parser.y"
+#line 1261 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5370 "bison_parser.cpp"
+#line 9426 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1258 "bison_parser.y"
+#line 1263 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5376 "bison_parser.cpp"
+#line 9432 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1260 "bison_parser.y"
+#line 1265 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5387,17 +9443,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5391 "bison_parser.cpp"
+#line 9447 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1271 "bison_parser.y"
+#line 1276 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5397 "bison_parser.cpp"
+#line 9453 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1272 "bison_parser.y"
+#line 1277 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5409,11 +9465,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5413 "bison_parser.cpp"
+#line 9469 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1283 "bison_parser.y"
+#line 1288 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5445,61 +9501,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5449 "bison_parser.cpp"
+#line 9505 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1315 "bison_parser.y"
+#line 1320 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5459 "bison_parser.cpp"
+#line 9515 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1324 "bison_parser.y"
+#line 1329 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5470 "bison_parser.cpp"
+#line 9526 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1333 "bison_parser.y"
+#line 1338 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5481 "bison_parser.cpp"
+#line 9537 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1340 "bison_parser.y"
+#line 1345 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5490 "bison_parser.cpp"
+#line 9546 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1344 "bison_parser.y"
+#line 1349 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5499 "bison_parser.cpp"
+#line 9555 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1349 "bison_parser.y"
+#line 1354 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5507,215 +9563,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5511 "bison_parser.cpp"
+#line 9567 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1357 "bison_parser.y"
+#line 1362 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5521 "bison_parser.cpp"
+#line 9577 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1363 "bison_parser.y"
+#line 1368 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5530 "bison_parser.cpp"
+#line 9586 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1367 "bison_parser.y"
+#line 1372 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5539 "bison_parser.cpp"
+#line 9595 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1372 "bison_parser.y"
+#line 1377 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5545 "bison_parser.cpp"
+#line 9601 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1373 "bison_parser.y"
+#line 1378 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5551 "bison_parser.cpp"
+#line 9607 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1375 "bison_parser.y"
+#line 1380 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5557 "bison_parser.cpp"
+#line 9613 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1377 "bison_parser.y"
+#line 1382 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5563 "bison_parser.cpp"
+#line 9619 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1379 "bison_parser.y"
+#line 1384 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5569 "bison_parser.cpp"
+#line 9625 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1380 "bison_parser.y"
+#line 1385 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5575 "bison_parser.cpp"
+#line 9631 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1382 "bison_parser.y"
+#line 1387 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5581 "bison_parser.cpp"
+#line 9637 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1388 "bison_parser.y"
+#line 1393 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5587 "bison_parser.cpp"
+#line 9643 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1389 "bison_parser.y"
+#line 1394 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5593 "bison_parser.cpp"
+#line 9649 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1391 "bison_parser.y"
+#line 1396 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5602 "bison_parser.cpp"
+#line 9658 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1395 "bison_parser.y"
+#line 1400 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5611 "bison_parser.cpp"
+#line 9667 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1400 "bison_parser.y"
+#line 1405 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5622 "bison_parser.cpp"
+#line 9678 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1406 "bison_parser.y"
+#line 1411 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5633 "bison_parser.cpp"
+#line 9689 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1413 "bison_parser.y"
+#line 1418 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5639 "bison_parser.cpp"
+#line 9695 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1414 "bison_parser.y"
+#line 1419 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5645 "bison_parser.cpp"
+#line 9701 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1415 "bison_parser.y"
+#line 1420 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5651 "bison_parser.cpp"
+#line 9707 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1416 "bison_parser.y"
+#line 1421 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5657 "bison_parser.cpp"
+#line 9713 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1418 "bison_parser.y"
+#line 1423 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5663 "bison_parser.cpp"
+#line 9719 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1419 "bison_parser.y"
+#line 1424 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5669 "bison_parser.cpp"
+#line 9725 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1420 "bison_parser.y"
+#line 1425 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5675 "bison_parser.cpp"
+#line 9731 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1426 "bison_parser.y"
+#line 1431 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5681 "bison_parser.cpp"
+#line 9737 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1428 "bison_parser.y"
+#line 1433 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5687 "bison_parser.cpp"
+#line 9743 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1430 "bison_parser.y"
+#line 1435 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5696 "bison_parser.cpp"
+#line 9752 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1434 "bison_parser.y"
+#line 1439 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5705 "bison_parser.cpp"
+#line 9761 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1439 "bison_parser.y"
+#line 1444 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5715 "bison_parser.cpp"
+#line 9771 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1449 "bison_parser.y"
+#line 1454 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5723,11 +9779,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5727 "bison_parser.cpp"
+#line 9783 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1456 "bison_parser.y"
+#line 1461 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5736,11 +9792,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5740 "bison_parser.cpp"
+#line 9796 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1464 "bison_parser.y"
+#line 1469 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5749,89 +9805,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5753 "bison_parser.cpp"
+#line 9809 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1473 "bison_parser.y"
+#line 1478 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5759 "bison_parser.cpp"
+#line 9815 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1474 "bison_parser.y"
+#line 1479 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5765 "bison_parser.cpp"
+#line 9821 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1475 "bison_parser.y"
+#line 1480 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5771 "bison_parser.cpp"
+#line 9827 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1476 "bison_parser.y"
+#line 1481 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5777 "bison_parser.cpp"
+#line 9833 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1477 "bison_parser.y"
+#line 1482 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5783 "bison_parser.cpp"
+#line 9839 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1478 "bison_parser.y"
+#line 1483 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5789 "bison_parser.cpp"
+#line 9845 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1479 "bison_parser.y"
+#line 1484 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5795 "bison_parser.cpp"
+#line 9851 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1480 "bison_parser.y"
+#line 1485 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5801 "bison_parser.cpp"
+#line 9857 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1481 "bison_parser.y"
+#line 1486 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5807 "bison_parser.cpp"
+#line 9863 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1482 "bison_parser.y"
+#line 1487 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5813 "bison_parser.cpp"
+#line 9869 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1493 "bison_parser.y"
+#line 1498 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5822 "bison_parser.cpp"
+#line 9878 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1497 "bison_parser.y"
+#line 1502 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5831 "bison_parser.cpp"
+#line 9887 "bison_parser.cpp"
     break;
 
 
-#line 5835 "bison_parser.cpp"
+#line 9891 "bison_parser.cpp"
 
       default: break;
     }
@@ -6060,7 +10116,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1503 "bison_parser.y"
+#line 1508 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index 3719056..99c00e0 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -275,7 +275,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 102 "bison_parser.y"
+#line 107 "bison_parser.y"
 
   // clang-format on
   bool bval;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 65e1c92..1e27cc9 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -76,6 +76,11 @@
 %define api.token.prefix {SQL_}
 
 %define parse.error verbose
+
+// Always look at the next token before a rule is reduced. Otherwise, the result would be filled before the parser
+// notices that something invalid follows the last semicolon, and it would depend on the last token of a statement
+// whether the statement's length includes the semicolon.
+%define lr.default-reduction accepting
 %locations
 
 %initial-action {
-- 
2.43.0


From d17a5fb83f71cb0020a91df7634612b912b8b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 10/14] fix: the length of nested statements is not initialized

Likewise the members of DropStatement and SetOperation that their constructors leave out.
---
 src/sql/SQLStatement.cpp | 2 +-
 src/sql/statements.cpp   | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sql/SQLStatement.cpp b/src/sql/SQLStatement.cpp
index 52ecbec..a864f29 100644
--- a/src/sql/SQLStatement.cpp
+++ b/src/sql/SQLStatement.cpp
@@ -4,7 +4,7 @@
 namespace hsql {
 
 // SQLStatement
-SQLStatement::SQLStatement(StatementType type) : hints(nullptr), type_(type) {}
+SQLStatement::SQLStatement(StatementType type) : stringLength(0), hints(nullptr), type_(type) {}
 
 SQLStatement::~SQLStatement() {
   if (hints) {
diff --git a/src/sql/statements.cpp b/src/sql/statements.cpp
index 0645b43..02c531b 100644
--- a/src/sql/statements.cpp
+++ b/src/sql/statements.cpp
@@ -84,7 +84,7 @@ DeleteStatement::~DeleteStatement() {
 
 // DropStatement
 DropStatement::DropStatement(DropType type)
-    : SQLStatement(kStmtDrop), type(type), schema(nullptr), name(nullptr), indexName(nullptr) {}
+    : SQLStatement(kStmtDrop), type(type), ifExists(false), schema(nullptr), name(nullptr), indexName(nullptr) {}
 
 DropStatement::~DropStatement() {
   free(schema);
@@ -429,7 +429,12 @@ JoinDefinition::~JoinDefinition() {
   }
 }
 
-SetOperation::SetOperation() : nestedSelectStatement(nullptr), resultOrder(nullptr), resultLimit(nullptr) {}
+SetOperation::SetOperation()
+    : setType(kSetUnion),
+      isAll(false),
+      nestedSelectStatement(nullptr),
+      resultOrder(nullptr),
+      resultLimit(nullptr) {}
 
 SetOperation::~SetOperation() {
   delete nestedSelectStatement;
-- 
2.43.0


From a5e07cbf2563ecafd5f835f520d6ac9fc6dbd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 11/14] fix: fail the call if the memory runs out, neither exit
 the process nor accept an altered query

The lexer called exit() or dereferenced a null pointer if an allocation failed, dropped parts of strings, and leaked
if an exception passed through. Now, parse() and tokenize() return false and leave the statements in the result as
they were.
---
 src/SQLParser.cpp           |   20 +-
 src/SQLParserResult.cpp     |    5 +
 src/SQLParserResult.h       |    3 +
 src/parser/bison_parser.cpp | 1321 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |    3 +
 src/parser/flex_lexer.cpp   |  420 +++++------
 src/parser/flex_lexer.h     |    2 +-
 src/parser/flex_lexer.l     |   30 +-
 src/sql/Expr.cpp            |    5 +-
 9 files changed, 945 insertions(+), 864 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index 089b171..aaeb852 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -1,16 +1,21 @@
 
 #include "SQLParser.h"
 #include <stdio.h>
+#include <memory>
+#include <new>
 #include <string>
 #include "parser/bison_parser.h"
 #include "parser/flex_lexer.h"
 
 namespace hsql {
 
+// Destroys the lexer and its buffers, also if the memory runs out in between.
+using ScannerGuard = std::unique_ptr<void, int (*)(yyscan_t)>;
+
 SQLParser::SQLParser() { fprintf(stderr, "SQLParser only has static methods atm! Do not initialize!\n"); }
 
 // static
-bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
+bool SQLParser::parse(const std::string& sql, SQLParserResult* result) try {
   yyscan_t scanner;
   YY_BUFFER_STATE state;
 
@@ -19,6 +24,7 @@ bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
     fprintf(stderr, "SQLParser: Error when initializing lexer!\n");
     return false;
   }
+  const ScannerGuard scannerGuard{scanner, hsql_lex_destroy};
   state = hsql__scan_bytes(sql.data(), sql.size(), scanner);
 
   // Parse the tokens.
@@ -28,9 +34,12 @@ bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
   result->setIsValid(success);
 
   hsql__delete_buffer(state, scanner);
-  hsql_lex_destroy(scanner);
 
   return true;
+} catch (const std::bad_alloc&) {
+  fprintf(stderr, "SQLParser: Out of memory!\n");
+  result->setIsValid(false);
+  return false;
 }
 
 // static
@@ -39,13 +48,14 @@ bool SQLParser::parseSQLString(const char* sql, SQLParserResult* result) { retur
 bool SQLParser::parseSQLString(const std::string& sql, SQLParserResult* result) { return parse(sql, result); }
 
 // static
-bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
+bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) try {
   // Initialize the scanner.
   yyscan_t scanner;
   if (hsql_lex_init(&scanner)) {
     fprintf(stderr, "SQLParser: Error when initializing lexer!\n");
     return false;
   }
+  const ScannerGuard scannerGuard{scanner, hsql_lex_destroy};
 
   YY_BUFFER_STATE state;
   state = hsql__scan_bytes(sql.data(), sql.size(), scanner);
@@ -67,8 +77,10 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   }
 
   hsql__delete_buffer(state, scanner);
-  hsql_lex_destroy(scanner);
   return true;
+} catch (const std::bad_alloc&) {
+  fprintf(stderr, "SQLParser: Out of memory!\n");
+  return false;
 }
 
 }  // namespace hsql
diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index a5dc96d..ef74642 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -35,6 +35,11 @@ SQLParserResult& SQLParserResult::operator=(SQLParserResult&& moved) {
 
 SQLParserResult::~SQLParserResult() { reset(); }
 
+void SQLParserResult::reserve(size_t statementCount, size_t parameterCount) {
+  statements_.reserve(statements_.size() + statementCount);
+  parameters_.reserve(parameters_.size() + parameterCount);
+}
+
 void SQLParserResult::addStatement(SQLStatement* stmt) { statements_.push_back(stmt); }
 
 const SQLStatement* SQLParserResult::getStatement(size_t index) const { return statements_[index]; }
diff --git a/src/SQLParserResult.h b/src/SQLParserResult.h
index c33bc3d..aebf5d8 100644
--- a/src/SQLParserResult.h
+++ b/src/SQLParserResult.h
@@ -44,6 +44,9 @@ class SQLParserResult {
   // Returns the column number of the occurrance of the error in the query.
   int errorColumn() const;
 
+  // Allocates memory for the given number of statements and parameters, so that adding them cannot fail.
+  void reserve(size_t statementCount, size_t parameterCount);
+
   // Adds a statement to the result list of statements.
   // SQLParserResult takes ownership of the statement.
   void addStatement(SQLStatement* stmt);
diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 131d5ac..0c610aa 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -875,42 +875,42 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   351,   351,   370,   376,   383,   387,   391,   392,   393,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     410,   411,   413,   417,   422,   426,   436,   437,   438,   440,
-     440,   446,   452,   454,   458,   470,   476,   493,   508,   510,
-     511,   512,   514,   528,   532,   542,   546,   570,   578,   591,
-     598,   613,   633,   634,   639,   650,   665,   673,   680,   688,
-     697,   698,   700,   704,   709,   710,   712,   725,   726,   727,
-     728,   729,   730,   731,   735,   736,   737,   738,   739,   740,
-     741,   742,   743,   744,   745,   747,   748,   750,   751,   752,
-     754,   755,   757,   761,   765,   770,   778,   779,   780,   781,
-     783,   784,   785,   787,   795,   801,   807,   813,   819,   820,
-     827,   833,   835,   845,   852,   863,   870,   878,   879,   886,
-     893,   897,   902,   912,   916,   920,   932,   932,   934,   935,
-     944,   945,   947,   961,   973,   978,   982,   986,   991,   992,
-     994,  1004,  1005,  1007,  1009,  1010,  1012,  1014,  1015,  1017,
-    1022,  1024,  1025,  1027,  1028,  1030,  1034,  1039,  1041,  1042,
-    1043,  1045,  1046,  1068,  1069,  1071,  1072,  1073,  1074,  1075,
-    1076,  1081,  1085,  1091,  1092,  1094,  1098,  1103,  1103,  1107,
-    1115,  1116,  1118,  1127,  1127,  1127,  1127,  1127,  1129,  1130,
-    1130,  1130,  1130,  1130,  1130,  1130,  1130,  1131,  1131,  1135,
-    1135,  1137,  1138,  1139,  1140,  1141,  1143,  1143,  1144,  1145,
-    1146,  1147,  1148,  1149,  1150,  1151,  1152,  1154,  1155,  1157,
-    1158,  1159,  1160,  1164,  1165,  1166,  1167,  1169,  1170,  1172,
-    1173,  1175,  1176,  1177,  1178,  1179,  1180,  1181,  1185,  1186,
-    1187,  1188,  1192,  1193,  1195,  1196,  1201,  1202,  1203,  1207,
-    1208,  1209,  1211,  1212,  1213,  1214,  1215,  1217,  1219,  1221,
-    1222,  1223,  1224,  1225,  1226,  1228,  1229,  1230,  1231,  1232,
-    1233,  1235,  1235,  1237,  1239,  1244,  1246,  1247,  1248,  1249,
-    1251,  1251,  1251,  1251,  1251,  1251,  1251,  1253,  1255,  1256,
-    1258,  1259,  1261,  1263,  1265,  1276,  1277,  1288,  1320,  1329,
-    1329,  1336,  1336,  1338,  1338,  1345,  1349,  1354,  1362,  1368,
-    1372,  1377,  1378,  1380,  1380,  1382,  1382,  1384,  1385,  1387,
-    1387,  1393,  1394,  1396,  1400,  1405,  1411,  1418,  1419,  1420,
-    1421,  1423,  1424,  1425,  1431,  1431,  1433,  1435,  1439,  1444,
-    1454,  1461,  1469,  1478,  1479,  1480,  1481,  1482,  1483,  1484,
-    1485,  1486,  1487,  1489,  1495,  1495,  1498,  1502
+       0,   351,   351,   373,   379,   386,   390,   394,   395,   396,
+     398,   399,   400,   401,   402,   403,   404,   405,   406,   407,
+     413,   414,   416,   420,   425,   429,   439,   440,   441,   443,
+     443,   449,   455,   457,   461,   473,   479,   496,   511,   513,
+     514,   515,   517,   531,   535,   545,   549,   573,   581,   594,
+     601,   616,   636,   637,   642,   653,   668,   676,   683,   691,
+     700,   701,   703,   707,   712,   713,   715,   728,   729,   730,
+     731,   732,   733,   734,   738,   739,   740,   741,   742,   743,
+     744,   745,   746,   747,   748,   750,   751,   753,   754,   755,
+     757,   758,   760,   764,   768,   773,   781,   782,   783,   784,
+     786,   787,   788,   790,   798,   804,   810,   816,   822,   823,
+     830,   836,   838,   848,   855,   866,   873,   881,   882,   889,
+     896,   900,   905,   915,   919,   923,   935,   935,   937,   938,
+     947,   948,   950,   964,   976,   981,   985,   989,   994,   995,
+     997,  1007,  1008,  1010,  1012,  1013,  1015,  1017,  1018,  1020,
+    1025,  1027,  1028,  1030,  1031,  1033,  1037,  1042,  1044,  1045,
+    1046,  1048,  1049,  1071,  1072,  1074,  1075,  1076,  1077,  1078,
+    1079,  1084,  1088,  1094,  1095,  1097,  1101,  1106,  1106,  1110,
+    1118,  1119,  1121,  1130,  1130,  1130,  1130,  1130,  1132,  1133,
+    1133,  1133,  1133,  1133,  1133,  1133,  1133,  1134,  1134,  1138,
+    1138,  1140,  1141,  1142,  1143,  1144,  1146,  1146,  1147,  1148,
+    1149,  1150,  1151,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
+    1161,  1162,  1163,  1167,  1168,  1169,  1170,  1172,  1173,  1175,
+    1176,  1178,  1179,  1180,  1181,  1182,  1183,  1184,  1188,  1189,
+    1190,  1191,  1195,  1196,  1198,  1199,  1204,  1205,  1206,  1210,
+    1211,  1212,  1214,  1215,  1216,  1217,  1218,  1220,  1222,  1224,
+    1225,  1226,  1227,  1228,  1229,  1231,  1232,  1233,  1234,  1235,
+    1236,  1238,  1238,  1240,  1242,  1247,  1249,  1250,  1251,  1252,
+    1254,  1254,  1254,  1254,  1254,  1254,  1254,  1256,  1258,  1259,
+    1261,  1262,  1264,  1266,  1268,  1279,  1280,  1291,  1323,  1332,
+    1332,  1339,  1339,  1341,  1341,  1348,  1352,  1357,  1365,  1371,
+    1375,  1380,  1381,  1383,  1383,  1385,  1385,  1387,  1388,  1390,
+    1390,  1396,  1397,  1399,  1403,  1408,  1414,  1421,  1422,  1423,
+    1424,  1426,  1427,  1428,  1434,  1434,  1436,  1438,  1442,  1447,
+    1457,  1464,  1472,  1481,  1482,  1483,  1484,  1485,  1486,  1487,
+    1488,  1489,  1490,  1492,  1498,  1498,  1501,  1505
 };
 #endif
 
@@ -7426,6 +7426,9 @@ yyreduce:
   case 2: /* input: statement_list opt_semicolon  */
 #line 351 "bison_parser.y"
                                      {
+  // Add everything or nothing, even if there is no memory left.
+  result->reserve((yyvsp[-1].stmt_vec)->size(), yyloc.param_list.size());
+
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
@@ -7442,236 +7445,236 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 7446 "bison_parser.cpp"
+#line 7449 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 370 "bison_parser.y"
+#line 373 "bison_parser.y"
                            {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 7457 "bison_parser.cpp"
+#line 7460 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 376 "bison_parser.y"
+#line 379 "bison_parser.y"
                                {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 7468 "bison_parser.cpp"
+#line 7471 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 383 "bison_parser.y"
+#line 386 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 7477 "bison_parser.cpp"
+#line 7480 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 387 "bison_parser.y"
+#line 390 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 7486 "bison_parser.cpp"
+#line 7489 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 391 "bison_parser.y"
+#line 394 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 7492 "bison_parser.cpp"
+#line 7495 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 392 "bison_parser.y"
+#line 395 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 7498 "bison_parser.cpp"
+#line 7501 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 393 "bison_parser.y"
+#line 396 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 7504 "bison_parser.cpp"
+#line 7507 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 395 "bison_parser.y"
+#line 398 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 7510 "bison_parser.cpp"
+#line 7513 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 396 "bison_parser.y"
+#line 399 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 7516 "bison_parser.cpp"
+#line 7519 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 397 "bison_parser.y"
+#line 400 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 7522 "bison_parser.cpp"
+#line 7525 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 398 "bison_parser.y"
+#line 401 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 7528 "bison_parser.cpp"
+#line 7531 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 399 "bison_parser.y"
+#line 402 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 7534 "bison_parser.cpp"
+#line 7537 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 400 "bison_parser.y"
+#line 403 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 7540 "bison_parser.cpp"
+#line 7543 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 401 "bison_parser.y"
+#line 404 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 7546 "bison_parser.cpp"
+#line 7549 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 402 "bison_parser.y"
+#line 405 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 7552 "bison_parser.cpp"
+#line 7555 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 403 "bison_parser.y"
+#line 406 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 7558 "bison_parser.cpp"
+#line 7561 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 404 "bison_parser.y"
+#line 407 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 7564 "bison_parser.cpp"
+#line 7567 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 410 "bison_parser.y"
+#line 413 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 7570 "bison_parser.cpp"
+#line 7573 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 411 "bison_parser.y"
+#line 414 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 7576 "bison_parser.cpp"
+#line 7579 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 413 "bison_parser.y"
+#line 416 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 7585 "bison_parser.cpp"
+#line 7588 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 417 "bison_parser.y"
+#line 420 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 7594 "bison_parser.cpp"
+#line 7597 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 422 "bison_parser.y"
+#line 425 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 7603 "bison_parser.cpp"
+#line 7606 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 426 "bison_parser.y"
+#line 429 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 7613 "bison_parser.cpp"
+#line 7616 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 436 "bison_parser.y"
+#line 439 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 7619 "bison_parser.cpp"
+#line 7622 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 437 "bison_parser.y"
+#line 440 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 7625 "bison_parser.cpp"
+#line 7628 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 438 "bison_parser.y"
+#line 441 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 7631 "bison_parser.cpp"
+#line 7634 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 446 "bison_parser.y"
+#line 449 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 7641 "bison_parser.cpp"
+#line 7644 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 454 "bison_parser.y"
+#line 457 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 7650 "bison_parser.cpp"
+#line 7653 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 458 "bison_parser.y"
+#line 461 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 7660 "bison_parser.cpp"
+#line 7663 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 470 "bison_parser.y"
+#line 473 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 7671 "bison_parser.cpp"
+#line 7674 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 476 "bison_parser.y"
+#line 479 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -7688,11 +7691,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 7692 "bison_parser.cpp"
+#line 7695 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 493 "bison_parser.y"
+#line 496 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -7707,35 +7710,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 7711 "bison_parser.cpp"
+#line 7714 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 508 "bison_parser.y"
+#line 511 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 7717 "bison_parser.cpp"
+#line 7720 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 510 "bison_parser.y"
+#line 513 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 7723 "bison_parser.cpp"
+#line 7726 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 511 "bison_parser.y"
+#line 514 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 7729 "bison_parser.cpp"
+#line 7732 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 512 "bison_parser.y"
+#line 515 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 7735 "bison_parser.cpp"
+#line 7738 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 514 "bison_parser.y"
+#line 517 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -7750,20 +7753,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 7754 "bison_parser.cpp"
+#line 7757 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 528 "bison_parser.y"
+#line 531 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 7763 "bison_parser.cpp"
+#line 7766 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 532 "bison_parser.y"
+#line 535 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -7774,20 +7777,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 7778 "bison_parser.cpp"
+#line 7781 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 542 "bison_parser.y"
+#line 545 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 7787 "bison_parser.cpp"
+#line 7790 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 546 "bison_parser.y"
+#line 549 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -7812,11 +7815,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 7816 "bison_parser.cpp"
+#line 7819 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 570 "bison_parser.y"
+#line 573 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -7824,11 +7827,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 7828 "bison_parser.cpp"
+#line 7831 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 578 "bison_parser.y"
+#line 581 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -7842,17 +7845,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 7846 "bison_parser.cpp"
+#line 7849 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 591 "bison_parser.y"
+#line 594 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 7852 "bison_parser.cpp"
+#line 7855 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 598 "bison_parser.y"
+#line 601 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -7868,11 +7871,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 7872 "bison_parser.cpp"
+#line 7875 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 613 "bison_parser.y"
+#line 616 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -7887,37 +7890,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 7891 "bison_parser.cpp"
+#line 7894 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 633 "bison_parser.y"
+#line 636 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 7897 "bison_parser.cpp"
+#line 7900 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 634 "bison_parser.y"
+#line 637 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 7907 "bison_parser.cpp"
+#line 7910 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 639 "bison_parser.y"
+#line 642 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 7917 "bison_parser.cpp"
+#line 7920 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 650 "bison_parser.y"
+#line 653 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
@@ -7933,11 +7936,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 7937 "bison_parser.cpp"
+#line 7940 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 665 "bison_parser.y"
+#line 668 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -7946,11 +7949,11 @@ yyreduce:
   (yyval.create_stmt)->setColumnDefsAndConstraints((yyvsp[-1].table_element_vec));
   delete (yyvsp[-1].table_element_vec);
 }
-#line 7950 "bison_parser.cpp"
+#line 7953 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 673 "bison_parser.y"
+#line 676 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -7958,11 +7961,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 7962 "bison_parser.cpp"
+#line 7965 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 680 "bison_parser.y"
+#line 683 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -7971,11 +7974,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 7975 "bison_parser.cpp"
+#line 7978 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 688 "bison_parser.y"
+#line 691 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -7984,53 +7987,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 7988 "bison_parser.cpp"
+#line 7991 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 697 "bison_parser.y"
+#line 700 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 7994 "bison_parser.cpp"
+#line 7997 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 698 "bison_parser.y"
+#line 701 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8000 "bison_parser.cpp"
+#line 8003 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 700 "bison_parser.y"
+#line 703 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 8009 "bison_parser.cpp"
+#line 8012 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 704 "bison_parser.y"
+#line 707 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 8018 "bison_parser.cpp"
+#line 8021 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 709 "bison_parser.y"
+#line 712 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 8024 "bison_parser.cpp"
+#line 8027 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 710 "bison_parser.y"
+#line 713 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 8030 "bison_parser.cpp"
+#line 8033 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 712 "bison_parser.y"
+#line 715 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   // The column definition owns the constraints and references.
@@ -8043,192 +8046,192 @@ yyreduce:
     YYERROR;
   }
 }
-#line 8047 "bison_parser.cpp"
+#line 8050 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 725 "bison_parser.y"
+#line 728 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 8053 "bison_parser.cpp"
+#line 8056 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 726 "bison_parser.y"
+#line 729 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 8059 "bison_parser.cpp"
+#line 8062 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 727 "bison_parser.y"
+#line 730 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 8065 "bison_parser.cpp"
+#line 8068 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 728 "bison_parser.y"
+#line 731 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 8071 "bison_parser.cpp"
+#line 8074 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 729 "bison_parser.y"
+#line 732 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 8077 "bison_parser.cpp"
+#line 8080 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 730 "bison_parser.y"
+#line 733 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 8083 "bison_parser.cpp"
+#line 8086 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 731 "bison_parser.y"
+#line 734 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 8092 "bison_parser.cpp"
+#line 8095 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 735 "bison_parser.y"
+#line 738 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 8098 "bison_parser.cpp"
+#line 8101 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 736 "bison_parser.y"
+#line 739 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 8104 "bison_parser.cpp"
+#line 8107 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 737 "bison_parser.y"
+#line 740 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 8110 "bison_parser.cpp"
+#line 8113 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 738 "bison_parser.y"
+#line 741 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 8116 "bison_parser.cpp"
+#line 8119 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 739 "bison_parser.y"
+#line 742 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 8122 "bison_parser.cpp"
+#line 8125 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 740 "bison_parser.y"
+#line 743 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 8128 "bison_parser.cpp"
+#line 8131 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 741 "bison_parser.y"
+#line 744 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 8134 "bison_parser.cpp"
+#line 8137 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 742 "bison_parser.y"
+#line 745 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 8140 "bison_parser.cpp"
+#line 8143 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 743 "bison_parser.y"
+#line 746 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 8146 "bison_parser.cpp"
+#line 8149 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 744 "bison_parser.y"
+#line 747 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 8152 "bison_parser.cpp"
+#line 8155 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 745 "bison_parser.y"
+#line 748 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 8158 "bison_parser.cpp"
+#line 8161 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 747 "bison_parser.y"
+#line 750 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 8164 "bison_parser.cpp"
+#line 8167 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 748 "bison_parser.y"
+#line 751 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 8170 "bison_parser.cpp"
+#line 8173 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 750 "bison_parser.y"
+#line 753 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 8176 "bison_parser.cpp"
+#line 8179 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 751 "bison_parser.y"
+#line 754 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 8182 "bison_parser.cpp"
+#line 8185 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 752 "bison_parser.y"
+#line 755 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 8188 "bison_parser.cpp"
+#line 8191 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 754 "bison_parser.y"
+#line 757 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 8194 "bison_parser.cpp"
+#line 8197 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 755 "bison_parser.y"
+#line 758 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 8200 "bison_parser.cpp"
+#line 8203 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 757 "bison_parser.y"
+#line 760 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 8209 "bison_parser.cpp"
+#line 8212 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 761 "bison_parser.y"
+#line 764 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 8218 "bison_parser.cpp"
+#line 8221 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 765 "bison_parser.y"
+#line 768 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 8228 "bison_parser.cpp"
+#line 8231 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 770 "bison_parser.y"
+#line 773 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -8236,159 +8239,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 8240 "bison_parser.cpp"
+#line 8243 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 778 "bison_parser.y"
+#line 781 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 8246 "bison_parser.cpp"
+#line 8249 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 779 "bison_parser.y"
+#line 782 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 8252 "bison_parser.cpp"
+#line 8255 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 780 "bison_parser.y"
+#line 783 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 8258 "bison_parser.cpp"
+#line 8261 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 781 "bison_parser.y"
+#line 784 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 8264 "bison_parser.cpp"
+#line 8267 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 783 "bison_parser.y"
+#line 786 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 8270 "bison_parser.cpp"
+#line 8273 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 784 "bison_parser.y"
+#line 787 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 8276 "bison_parser.cpp"
+#line 8279 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 785 "bison_parser.y"
+#line 788 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 8282 "bison_parser.cpp"
+#line 8285 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 787 "bison_parser.y"
+#line 790 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 8288 "bison_parser.cpp"
+#line 8291 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 795 "bison_parser.y"
+#line 798 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 8299 "bison_parser.cpp"
+#line 8302 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 801 "bison_parser.y"
+#line 804 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 8310 "bison_parser.cpp"
+#line 8313 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 807 "bison_parser.y"
+#line 810 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 8320 "bison_parser.cpp"
+#line 8323 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 813 "bison_parser.y"
+#line 816 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 8330 "bison_parser.cpp"
+#line 8333 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 819 "bison_parser.y"
+#line 822 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 8336 "bison_parser.cpp"
+#line 8339 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 820 "bison_parser.y"
+#line 823 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8342 "bison_parser.cpp"
+#line 8345 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 827 "bison_parser.y"
+#line 830 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 8352 "bison_parser.cpp"
+#line 8355 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 833 "bison_parser.y"
+#line 836 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 8358 "bison_parser.cpp"
+#line 8361 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 835 "bison_parser.y"
+#line 838 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 8367 "bison_parser.cpp"
+#line 8370 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 845 "bison_parser.y"
+#line 848 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 8378 "bison_parser.cpp"
+#line 8381 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 852 "bison_parser.y"
+#line 855 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 8388 "bison_parser.cpp"
+#line 8391 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 863 "bison_parser.y"
+#line 866 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -8396,11 +8399,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 8400 "bison_parser.cpp"
+#line 8403 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 870 "bison_parser.y"
+#line 873 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -8408,80 +8411,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 8412 "bison_parser.cpp"
+#line 8415 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 878 "bison_parser.y"
+#line 881 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 8418 "bison_parser.cpp"
+#line 8421 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 879 "bison_parser.y"
+#line 882 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 8424 "bison_parser.cpp"
+#line 8427 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 886 "bison_parser.y"
+#line 889 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 8435 "bison_parser.cpp"
+#line 8438 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 893 "bison_parser.y"
+#line 896 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 8444 "bison_parser.cpp"
+#line 8447 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 897 "bison_parser.y"
+#line 900 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 8453 "bison_parser.cpp"
+#line 8456 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 902 "bison_parser.y"
+#line 905 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 8463 "bison_parser.cpp"
+#line 8466 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 912 "bison_parser.y"
+#line 915 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 8472 "bison_parser.cpp"
+#line 8475 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 916 "bison_parser.y"
+#line 919 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 8481 "bison_parser.cpp"
+#line 8484 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 920 "bison_parser.y"
+#line 923 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8493,17 +8496,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 8497 "bison_parser.cpp"
+#line 8500 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 934 "bison_parser.y"
+#line 937 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 8503 "bison_parser.cpp"
+#line 8506 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 935 "bison_parser.y"
+#line 938 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8512,23 +8515,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 8516 "bison_parser.cpp"
+#line 8519 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 944 "bison_parser.y"
+#line 947 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 8522 "bison_parser.cpp"
+#line 8525 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 945 "bison_parser.y"
+#line 948 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 8528 "bison_parser.cpp"
+#line 8531 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 947 "bison_parser.y"
+#line 950 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -8543,11 +8546,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 8547 "bison_parser.cpp"
+#line 8550 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 961 "bison_parser.y"
+#line 964 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8559,59 +8562,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 8563 "bison_parser.cpp"
+#line 8566 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 973 "bison_parser.y"
+#line 976 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 8572 "bison_parser.cpp"
+#line 8575 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 978 "bison_parser.y"
+#line 981 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 8581 "bison_parser.cpp"
+#line 8584 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 982 "bison_parser.y"
+#line 985 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 8590 "bison_parser.cpp"
+#line 8593 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 986 "bison_parser.y"
+#line 989 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 8599 "bison_parser.cpp"
+#line 8602 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 991 "bison_parser.y"
+#line 994 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 8605 "bison_parser.cpp"
+#line 8608 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 992 "bison_parser.y"
+#line 995 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8611 "bison_parser.cpp"
+#line 8614 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 994 "bison_parser.y"
+#line 997 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -8621,141 +8624,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 8625 "bison_parser.cpp"
+#line 8628 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1004 "bison_parser.y"
+#line 1007 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 8631 "bison_parser.cpp"
+#line 8634 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1005 "bison_parser.y"
+#line 1008 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8637 "bison_parser.cpp"
+#line 8640 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1009 "bison_parser.y"
+#line 1012 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 8643 "bison_parser.cpp"
+#line 8646 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1010 "bison_parser.y"
+#line 1013 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 8649 "bison_parser.cpp"
+#line 8652 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1012 "bison_parser.y"
+#line 1015 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 8655 "bison_parser.cpp"
+#line 8658 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1014 "bison_parser.y"
+#line 1017 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 8661 "bison_parser.cpp"
+#line 8664 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1015 "bison_parser.y"
+#line 1018 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 8667 "bison_parser.cpp"
+#line 8670 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1017 "bison_parser.y"
+#line 1020 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 8677 "bison_parser.cpp"
+#line 8680 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1022 "bison_parser.y"
+#line 1025 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 8683 "bison_parser.cpp"
+#line 8686 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1024 "bison_parser.y"
+#line 1027 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 8689 "bison_parser.cpp"
+#line 8692 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1025 "bison_parser.y"
+#line 1028 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 8695 "bison_parser.cpp"
+#line 8698 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1027 "bison_parser.y"
+#line 1030 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 8701 "bison_parser.cpp"
+#line 8704 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1028 "bison_parser.y"
+#line 1031 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 8707 "bison_parser.cpp"
+#line 8710 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1030 "bison_parser.y"
+#line 1033 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 8716 "bison_parser.cpp"
+#line 8719 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1034 "bison_parser.y"
+#line 1037 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 8725 "bison_parser.cpp"
+#line 8728 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1039 "bison_parser.y"
+#line 1042 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 8731 "bison_parser.cpp"
+#line 8734 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1041 "bison_parser.y"
+#line 1044 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 8737 "bison_parser.cpp"
+#line 8740 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1042 "bison_parser.y"
+#line 1045 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 8743 "bison_parser.cpp"
+#line 8746 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1043 "bison_parser.y"
+#line 1046 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 8749 "bison_parser.cpp"
+#line 8752 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1045 "bison_parser.y"
+#line 1048 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 8755 "bison_parser.cpp"
+#line 8758 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1046 "bison_parser.y"
+#line 1049 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -8775,115 +8778,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 8779 "bison_parser.cpp"
+#line 8782 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1068 "bison_parser.y"
+#line 1071 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 8785 "bison_parser.cpp"
+#line 8788 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1069 "bison_parser.y"
+#line 1072 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 8791 "bison_parser.cpp"
+#line 8794 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1071 "bison_parser.y"
+#line 1074 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 8797 "bison_parser.cpp"
+#line 8800 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1072 "bison_parser.y"
+#line 1075 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 8803 "bison_parser.cpp"
+#line 8806 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1073 "bison_parser.y"
+#line 1076 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 8809 "bison_parser.cpp"
+#line 8812 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1074 "bison_parser.y"
+#line 1077 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 8815 "bison_parser.cpp"
+#line 8818 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1075 "bison_parser.y"
+#line 1078 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 8821 "bison_parser.cpp"
+#line 8824 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1076 "bison_parser.y"
+#line 1079 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 8827 "bison_parser.cpp"
+#line 8830 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1081 "bison_parser.y"
+#line 1084 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 8836 "bison_parser.cpp"
+#line 8839 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1085 "bison_parser.y"
+#line 1088 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 8845 "bison_parser.cpp"
+#line 8848 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1091 "bison_parser.y"
+#line 1094 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 8851 "bison_parser.cpp"
+#line 8854 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1092 "bison_parser.y"
+#line 1095 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 8857 "bison_parser.cpp"
+#line 8860 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1094 "bison_parser.y"
+#line 1097 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 8866 "bison_parser.cpp"
+#line 8869 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1098 "bison_parser.y"
+#line 1101 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 8875 "bison_parser.cpp"
+#line 8878 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1103 "bison_parser.y"
+#line 1106 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 8883 "bison_parser.cpp"
+#line 8886 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1107 "bison_parser.y"
+#line 1110 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -8892,23 +8895,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 8896 "bison_parser.cpp"
+#line 8899 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1115 "bison_parser.y"
+#line 1118 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8902 "bison_parser.cpp"
+#line 8905 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1116 "bison_parser.y"
+#line 1119 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8908 "bison_parser.cpp"
+#line 8911 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1118 "bison_parser.y"
+#line 1121 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -8917,522 +8920,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 8921 "bison_parser.cpp"
+#line 8924 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1129 "bison_parser.y"
+#line 1132 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 8927 "bison_parser.cpp"
+#line 8930 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1131 "bison_parser.y"
+#line 1134 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 8935 "bison_parser.cpp"
+#line 8938 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1137 "bison_parser.y"
+#line 1140 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8941 "bison_parser.cpp"
+#line 8944 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1138 "bison_parser.y"
+#line 1141 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 8947 "bison_parser.cpp"
+#line 8950 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1139 "bison_parser.y"
+#line 1142 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 8953 "bison_parser.cpp"
+#line 8956 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1140 "bison_parser.y"
+#line 1143 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 8959 "bison_parser.cpp"
+#line 8962 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1141 "bison_parser.y"
+#line 1144 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 8965 "bison_parser.cpp"
+#line 8968 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1143 "bison_parser.y"
+#line 1146 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 8971 "bison_parser.cpp"
+#line 8974 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1144 "bison_parser.y"
+#line 1147 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 8977 "bison_parser.cpp"
+#line 8980 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1145 "bison_parser.y"
+#line 1148 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 8983 "bison_parser.cpp"
+#line 8986 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1146 "bison_parser.y"
+#line 1149 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 8989 "bison_parser.cpp"
+#line 8992 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1147 "bison_parser.y"
+#line 1150 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 8995 "bison_parser.cpp"
+#line 8998 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1148 "bison_parser.y"
+#line 1151 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 9001 "bison_parser.cpp"
+#line 9004 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1149 "bison_parser.y"
+#line 1152 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 9007 "bison_parser.cpp"
+#line 9010 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1150 "bison_parser.y"
+#line 1153 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 9013 "bison_parser.cpp"
+#line 9016 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1151 "bison_parser.y"
+#line 1154 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 9019 "bison_parser.cpp"
+#line 9022 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1152 "bison_parser.y"
+#line 1155 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 9025 "bison_parser.cpp"
+#line 9028 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1154 "bison_parser.y"
+#line 1157 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 9031 "bison_parser.cpp"
+#line 9034 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1155 "bison_parser.y"
+#line 1158 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 9037 "bison_parser.cpp"
+#line 9040 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1157 "bison_parser.y"
+#line 1160 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 9043 "bison_parser.cpp"
+#line 9046 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1158 "bison_parser.y"
+#line 1161 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 9049 "bison_parser.cpp"
+#line 9052 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1159 "bison_parser.y"
+#line 1162 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 9055 "bison_parser.cpp"
+#line 9058 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1160 "bison_parser.y"
+#line 1163 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 9061 "bison_parser.cpp"
+#line 9064 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1164 "bison_parser.y"
+#line 1167 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 9067 "bison_parser.cpp"
+#line 9070 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1165 "bison_parser.y"
+#line 1168 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 9073 "bison_parser.cpp"
+#line 9076 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1166 "bison_parser.y"
+#line 1169 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 9079 "bison_parser.cpp"
+#line 9082 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1167 "bison_parser.y"
+#line 1170 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 9085 "bison_parser.cpp"
+#line 9088 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1169 "bison_parser.y"
+#line 1172 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 9091 "bison_parser.cpp"
+#line 9094 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1170 "bison_parser.y"
+#line 1173 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 9097 "bison_parser.cpp"
+#line 9100 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1172 "bison_parser.y"
+#line 1175 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 9103 "bison_parser.cpp"
+#line 9106 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1173 "bison_parser.y"
+#line 1176 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 9109 "bison_parser.cpp"
+#line 9112 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1175 "bison_parser.y"
+#line 1178 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 9115 "bison_parser.cpp"
+#line 9118 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1176 "bison_parser.y"
+#line 1179 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 9121 "bison_parser.cpp"
+#line 9124 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1177 "bison_parser.y"
+#line 1180 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 9127 "bison_parser.cpp"
+#line 9130 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1178 "bison_parser.y"
+#line 1181 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 9133 "bison_parser.cpp"
+#line 9136 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1179 "bison_parser.y"
+#line 1182 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 9139 "bison_parser.cpp"
+#line 9142 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1180 "bison_parser.y"
+#line 1183 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 9145 "bison_parser.cpp"
+#line 9148 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1181 "bison_parser.y"
+#line 1184 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 9151 "bison_parser.cpp"
+#line 9154 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1185 "bison_parser.y"
+#line 1188 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 9157 "bison_parser.cpp"
+#line 9160 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1186 "bison_parser.y"
+#line 1189 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 9163 "bison_parser.cpp"
+#line 9166 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1187 "bison_parser.y"
+#line 1190 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 9169 "bison_parser.cpp"
+#line 9172 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1188 "bison_parser.y"
+#line 1191 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 9175 "bison_parser.cpp"
+#line 9178 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1192 "bison_parser.y"
+#line 1195 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 9181 "bison_parser.cpp"
+#line 9184 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1193 "bison_parser.y"
+#line 1196 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 9187 "bison_parser.cpp"
+#line 9190 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1195 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 9193 "bison_parser.cpp"
+#line 9196 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1196 "bison_parser.y"
+#line 1199 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 9199 "bison_parser.cpp"
+#line 9202 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1201 "bison_parser.y"
+#line 1204 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 9205 "bison_parser.cpp"
+#line 9208 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1202 "bison_parser.y"
+#line 1205 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 9211 "bison_parser.cpp"
+#line 9214 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1203 "bison_parser.y"
+#line 1206 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 9219 "bison_parser.cpp"
+#line 9222 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1207 "bison_parser.y"
+#line 1210 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 9225 "bison_parser.cpp"
+#line 9228 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1208 "bison_parser.y"
+#line 1211 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 9231 "bison_parser.cpp"
+#line 9234 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1209 "bison_parser.y"
+#line 1212 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 9237 "bison_parser.cpp"
+#line 9240 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1211 "bison_parser.y"
+#line 1214 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 9243 "bison_parser.cpp"
+#line 9246 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1212 "bison_parser.y"
+#line 1215 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 9249 "bison_parser.cpp"
+#line 9252 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1213 "bison_parser.y"
+#line 1216 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 9255 "bison_parser.cpp"
+#line 9258 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1214 "bison_parser.y"
+#line 1217 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 9261 "bison_parser.cpp"
+#line 9264 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1215 "bison_parser.y"
+#line 1218 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 9267 "bison_parser.cpp"
+#line 9270 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1217 "bison_parser.y"
+#line 1220 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 9273 "bison_parser.cpp"
+#line 9276 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1219 "bison_parser.y"
+#line 1222 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 9279 "bison_parser.cpp"
+#line 9282 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1221 "bison_parser.y"
+#line 1224 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 9285 "bison_parser.cpp"
+#line 9288 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1222 "bison_parser.y"
+#line 1225 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 9291 "bison_parser.cpp"
+#line 9294 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1223 "bison_parser.y"
+#line 1226 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 9297 "bison_parser.cpp"
+#line 9300 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1224 "bison_parser.y"
+#line 1227 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 9303 "bison_parser.cpp"
+#line 9306 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1225 "bison_parser.y"
+#line 1228 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 9309 "bison_parser.cpp"
+#line 9312 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1226 "bison_parser.y"
+#line 1229 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 9315 "bison_parser.cpp"
+#line 9318 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1228 "bison_parser.y"
+#line 1231 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 9321 "bison_parser.cpp"
+#line 9324 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1229 "bison_parser.y"
+#line 1232 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 9327 "bison_parser.cpp"
+#line 9330 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1230 "bison_parser.y"
+#line 1233 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 9333 "bison_parser.cpp"
+#line 9336 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1231 "bison_parser.y"
+#line 1234 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 9339 "bison_parser.cpp"
+#line 9342 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1232 "bison_parser.y"
+#line 1235 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 9345 "bison_parser.cpp"
+#line 9348 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1233 "bison_parser.y"
+#line 1236 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 9351 "bison_parser.cpp"
+#line 9354 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1237 "bison_parser.y"
+#line 1240 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 9357 "bison_parser.cpp"
+#line 9360 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1239 "bison_parser.y"
+#line 1242 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 9366 "bison_parser.cpp"
+#line 9369 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1244 "bison_parser.y"
+#line 1247 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 9372 "bison_parser.cpp"
+#line 9375 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1246 "bison_parser.y"
+#line 1249 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 9378 "bison_parser.cpp"
+#line 9381 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1247 "bison_parser.y"
+#line 1250 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 9384 "bison_parser.cpp"
+#line 9387 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1248 "bison_parser.y"
+#line 1251 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 9390 "bison_parser.cpp"
+#line 9393 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1249 "bison_parser.y"
+#line 1252 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 9396 "bison_parser.cpp"
+#line 9399 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1253 "bison_parser.y"
+#line 1256 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 9402 "bison_parser.cpp"
+#line 9405 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1255 "bison_parser.y"
+#line 1258 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 9408 "bison_parser.cpp"
+#line 9411 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1256 "bison_parser.y"
+#line 1259 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 9414 "bison_parser.cpp"
+#line 9417 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1258 "bison_parser.y"
+#line 1261 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 9420 "bison_parser.cpp"
+#line 9423 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1261 "bison_parser.y"
+#line 1264 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 9426 "bison_parser.cpp"
+#line 9429 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1263 "bison_parser.y"
+#line 1266 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 9432 "bison_parser.cpp"
+#line 9435 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1265 "bison_parser.y"
+#line 1268 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -9443,17 +9446,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 9447 "bison_parser.cpp"
+#line 9450 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1276 "bison_parser.y"
+#line 1279 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 9453 "bison_parser.cpp"
+#line 9456 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1277 "bison_parser.y"
+#line 1280 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -9465,11 +9468,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 9469 "bison_parser.cpp"
+#line 9472 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1288 "bison_parser.y"
+#line 1291 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -9501,61 +9504,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 9505 "bison_parser.cpp"
+#line 9508 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1320 "bison_parser.y"
+#line 1323 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 9515 "bison_parser.cpp"
+#line 9518 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1329 "bison_parser.y"
+#line 1332 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 9526 "bison_parser.cpp"
+#line 9529 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1338 "bison_parser.y"
+#line 1341 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 9537 "bison_parser.cpp"
+#line 9540 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1345 "bison_parser.y"
+#line 1348 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 9546 "bison_parser.cpp"
+#line 9549 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1349 "bison_parser.y"
+#line 1352 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 9555 "bison_parser.cpp"
+#line 9558 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1354 "bison_parser.y"
+#line 1357 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -9563,215 +9566,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 9567 "bison_parser.cpp"
+#line 9570 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1362 "bison_parser.y"
+#line 1365 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 9577 "bison_parser.cpp"
+#line 9580 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1368 "bison_parser.y"
+#line 1371 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 9586 "bison_parser.cpp"
+#line 9589 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1372 "bison_parser.y"
+#line 1375 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 9595 "bison_parser.cpp"
+#line 9598 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1377 "bison_parser.y"
+#line 1380 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 9601 "bison_parser.cpp"
+#line 9604 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1378 "bison_parser.y"
+#line 1381 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 9607 "bison_parser.cpp"
+#line 9610 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1380 "bison_parser.y"
+#line 1383 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 9613 "bison_parser.cpp"
+#line 9616 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1382 "bison_parser.y"
+#line 1385 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 9619 "bison_parser.cpp"
+#line 9622 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1384 "bison_parser.y"
+#line 1387 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 9625 "bison_parser.cpp"
+#line 9628 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1385 "bison_parser.y"
+#line 1388 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 9631 "bison_parser.cpp"
+#line 9634 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1387 "bison_parser.y"
+#line 1390 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 9637 "bison_parser.cpp"
+#line 9640 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1393 "bison_parser.y"
+#line 1396 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 9643 "bison_parser.cpp"
+#line 9646 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1394 "bison_parser.y"
+#line 1397 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 9649 "bison_parser.cpp"
+#line 9652 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1396 "bison_parser.y"
+#line 1399 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 9658 "bison_parser.cpp"
+#line 9661 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1400 "bison_parser.y"
+#line 1403 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 9667 "bison_parser.cpp"
+#line 9670 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1405 "bison_parser.y"
+#line 1408 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 9678 "bison_parser.cpp"
+#line 9681 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1411 "bison_parser.y"
+#line 1414 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 9689 "bison_parser.cpp"
+#line 9692 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1418 "bison_parser.y"
+#line 1421 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 9695 "bison_parser.cpp"
+#line 9698 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1419 "bison_parser.y"
+#line 1422 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 9701 "bison_parser.cpp"
+#line 9704 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1420 "bison_parser.y"
+#line 1423 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 9707 "bison_parser.cpp"
+#line 9710 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1421 "bison_parser.y"
+#line 1424 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 9713 "bison_parser.cpp"
+#line 9716 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1423 "bison_parser.y"
+#line 1426 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 9719 "bison_parser.cpp"
+#line 9722 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1424 "bison_parser.y"
+#line 1427 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 9725 "bison_parser.cpp"
+#line 9728 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1425 "bison_parser.y"
+#line 1428 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 9731 "bison_parser.cpp"
+#line 9734 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1431 "bison_parser.y"
+#line 1434 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 9737 "bison_parser.cpp"
+#line 9740 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1433 "bison_parser.y"
+#line 1436 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 9743 "bison_parser.cpp"
+#line 9746 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1435 "bison_parser.y"
+#line 1438 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 9752 "bison_parser.cpp"
+#line 9755 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1439 "bison_parser.y"
+#line 1442 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 9761 "bison_parser.cpp"
+#line 9764 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1444 "bison_parser.y"
+#line 1447 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 9771 "bison_parser.cpp"
+#line 9774 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1454 "bison_parser.y"
+#line 1457 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9779,11 +9782,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 9783 "bison_parser.cpp"
+#line 9786 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1461 "bison_parser.y"
+#line 1464 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9792,11 +9795,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 9796 "bison_parser.cpp"
+#line 9799 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1469 "bison_parser.y"
+#line 1472 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9805,89 +9808,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 9809 "bison_parser.cpp"
+#line 9812 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1478 "bison_parser.y"
+#line 1481 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 9815 "bison_parser.cpp"
+#line 9818 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1479 "bison_parser.y"
+#line 1482 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 9821 "bison_parser.cpp"
+#line 9824 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1480 "bison_parser.y"
+#line 1483 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 9827 "bison_parser.cpp"
+#line 9830 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1481 "bison_parser.y"
+#line 1484 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 9833 "bison_parser.cpp"
+#line 9836 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1482 "bison_parser.y"
+#line 1485 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 9839 "bison_parser.cpp"
+#line 9842 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1483 "bison_parser.y"
+#line 1486 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 9845 "bison_parser.cpp"
+#line 9848 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1484 "bison_parser.y"
+#line 1487 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 9851 "bison_parser.cpp"
+#line 9854 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1485 "bison_parser.y"
+#line 1488 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 9857 "bison_parser.cpp"
+#line 9860 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1486 "bison_parser.y"
+#line 1489 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 9863 "bison_parser.cpp"
+#line 9866 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1487 "bison_parser.y"
+#line 1490 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 9869 "bison_parser.cpp"
+#line 9872 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1498 "bison_parser.y"
+#line 1501 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 9878 "bison_parser.cpp"
+#line 9881 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1502 "bison_parser.y"
+#line 1505 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 9887 "bison_parser.cpp"
+#line 9890 "bison_parser.cpp"
     break;
 
 
-#line 9891 "bison_parser.cpp"
+#line 9894 "bison_parser.cpp"
 
       default: break;
     }
@@ -10116,7 +10119,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1508 "bison_parser.y"
+#line 1511 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 1e27cc9..677d967 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -349,6 +349,9 @@
 
 // Defines our general input.
 input : statement_list opt_semicolon {
+  // Add everything or nothing, even if there is no memory left.
+  result->reserve($1->size(), yyloc.param_list.size());
+
   for (SQLStatement* stmt : *$1) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index bed9885..ef8e6db 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -1239,13 +1239,31 @@ static const flex_int16_t yy_chk[1555] =
 #include "bison_parser.h"
 #include <climits>
 #include <stdio.h>
+#include <new>
 #include <sstream>
 
 #define TOKEN(name) { return SQL_##name; }
 
+// The scanner reads from memory only, so failing allocations are its only fatal errors. By default, it would exit the
+// process. yy_fatal_error() is never reached, but the compiler would complain if it was not used at all.
+#define YY_FATAL_ERROR(msg)         \
+  do {                              \
+    throw std::bad_alloc();         \
+    yy_fatal_error(msg, yyscanner); \
+  } while (0)
+
 static thread_local std::stringstream strbuf;
 
-#line 1249 "flex_lexer.cpp"
+// Like strdup, but throws if there is no memory left.
+static char* copyText(const char* text) {
+  char* copy = strdup(text);
+  if (!copy) {
+    throw std::bad_alloc();
+  }
+  return copy;
+}
+
+#line 1267 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1258,7 +1276,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1262 "flex_lexer.cpp"
+#line 1280 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1541,10 +1559,10 @@ YY_DECL
 		}
 
 	{
-#line 55 "flex_lexer.l"
+#line 73 "flex_lexer.l"
 
 
-#line 1548 "flex_lexer.cpp"
+#line 1566 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1599,888 +1617,888 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 57 "flex_lexer.l"
+#line 75 "flex_lexer.l"
 /* skip comment until the end of the line */;
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 59 "flex_lexer.l"
+#line 77 "flex_lexer.l"
 /* skip whitespace */;
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 61 "flex_lexer.l"
+#line 79 "flex_lexer.l"
 TOKEN(ADD)
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 62 "flex_lexer.l"
+#line 80 "flex_lexer.l"
 TOKEN(AFTER)
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 63 "flex_lexer.l"
+#line 81 "flex_lexer.l"
 TOKEN(ALL)
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 64 "flex_lexer.l"
+#line 82 "flex_lexer.l"
 TOKEN(ALTER)
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 65 "flex_lexer.l"
+#line 83 "flex_lexer.l"
 TOKEN(ANALYZE)
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 66 "flex_lexer.l"
+#line 84 "flex_lexer.l"
 TOKEN(AND)
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 67 "flex_lexer.l"
+#line 85 "flex_lexer.l"
 TOKEN(ARRAY)
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 68 "flex_lexer.l"
+#line 86 "flex_lexer.l"
 TOKEN(AS)
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 69 "flex_lexer.l"
+#line 87 "flex_lexer.l"
 TOKEN(ASC)
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 70 "flex_lexer.l"
+#line 88 "flex_lexer.l"
 TOKEN(BEFORE)
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 71 "flex_lexer.l"
+#line 89 "flex_lexer.l"
 TOKEN(BEGIN)
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 72 "flex_lexer.l"
+#line 90 "flex_lexer.l"
 TOKEN(BETWEEN)
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 73 "flex_lexer.l"
+#line 91 "flex_lexer.l"
 TOKEN(BIGINT)
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 74 "flex_lexer.l"
+#line 92 "flex_lexer.l"
 TOKEN(BOOLEAN)
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 75 "flex_lexer.l"
+#line 93 "flex_lexer.l"
 TOKEN(BY)
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 76 "flex_lexer.l"
+#line 94 "flex_lexer.l"
 TOKEN(CALL)
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 77 "flex_lexer.l"
+#line 95 "flex_lexer.l"
 TOKEN(CASCADE)
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 78 "flex_lexer.l"
+#line 96 "flex_lexer.l"
 TOKEN(CASE)
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 79 "flex_lexer.l"
+#line 97 "flex_lexer.l"
 TOKEN(CAST)
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 80 "flex_lexer.l"
+#line 98 "flex_lexer.l"
 TOKEN(CHAR)
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 81 "flex_lexer.l"
+#line 99 "flex_lexer.l"
 TOKEN(COLUMN)
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 82 "flex_lexer.l"
+#line 100 "flex_lexer.l"
 TOKEN(COLUMNS)
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 83 "flex_lexer.l"
+#line 101 "flex_lexer.l"
 TOKEN(COMMIT)
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 84 "flex_lexer.l"
+#line 102 "flex_lexer.l"
 TOKEN(CONTROL)
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 85 "flex_lexer.l"
+#line 103 "flex_lexer.l"
 TOKEN(COPY)
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 86 "flex_lexer.l"
+#line 104 "flex_lexer.l"
 TOKEN(CREATE)
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 87 "flex_lexer.l"
+#line 105 "flex_lexer.l"
 TOKEN(CROSS)
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 88 "flex_lexer.l"
+#line 106 "flex_lexer.l"
 TOKEN(DATE)
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 89 "flex_lexer.l"
+#line 107 "flex_lexer.l"
 TOKEN(DATETIME)
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 90 "flex_lexer.l"
+#line 108 "flex_lexer.l"
 TOKEN(DAY)
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 91 "flex_lexer.l"
+#line 109 "flex_lexer.l"
 TOKEN(DAYS)
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 92 "flex_lexer.l"
+#line 110 "flex_lexer.l"
 TOKEN(DEALLOCATE)
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 93 "flex_lexer.l"
+#line 111 "flex_lexer.l"
 TOKEN(DECIMAL)
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 94 "flex_lexer.l"
+#line 112 "flex_lexer.l"
 TOKEN(DEFAULT)
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 95 "flex_lexer.l"
+#line 113 "flex_lexer.l"
 TOKEN(DELETE)
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 96 "flex_lexer.l"
+#line 114 "flex_lexer.l"
 TOKEN(DELTA)
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 97 "flex_lexer.l"
+#line 115 "flex_lexer.l"
 TOKEN(DESC)
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 98 "flex_lexer.l"
+#line 116 "flex_lexer.l"
 TOKEN(DESCRIBE)
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 99 "flex_lexer.l"
+#line 117 "flex_lexer.l"
 TOKEN(DIRECT)
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 100 "flex_lexer.l"
+#line 118 "flex_lexer.l"
 TOKEN(DISTINCT)
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 101 "flex_lexer.l"
+#line 119 "flex_lexer.l"
 TOKEN(DOUBLE)
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 102 "flex_lexer.l"
+#line 120 "flex_lexer.l"
 TOKEN(DROP)
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 103 "flex_lexer.l"
+#line 121 "flex_lexer.l"
 TOKEN(ELSE)
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 104 "flex_lexer.l"
+#line 122 "flex_lexer.l"
 TOKEN(ENCODING)
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 105 "flex_lexer.l"
+#line 123 "flex_lexer.l"
 TOKEN(END)
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 106 "flex_lexer.l"
+#line 124 "flex_lexer.l"
 TOKEN(ESCAPE)
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 107 "flex_lexer.l"
+#line 125 "flex_lexer.l"
 TOKEN(EXCEPT)
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 108 "flex_lexer.l"
+#line 126 "flex_lexer.l"
 TOKEN(EXECUTE)
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 109 "flex_lexer.l"
+#line 127 "flex_lexer.l"
 TOKEN(EXISTS)
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 110 "flex_lexer.l"
+#line 128 "flex_lexer.l"
 TOKEN(EXPLAIN)
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 111 "flex_lexer.l"
+#line 129 "flex_lexer.l"
 TOKEN(EXTRACT)
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 112 "flex_lexer.l"
+#line 130 "flex_lexer.l"
 TOKEN(FALSE)
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 113 "flex_lexer.l"
+#line 131 "flex_lexer.l"
 TOKEN(FILE)
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 114 "flex_lexer.l"
+#line 132 "flex_lexer.l"
 TOKEN(FLOAT)
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 115 "flex_lexer.l"
+#line 133 "flex_lexer.l"
 TOKEN(FOLLOWING)
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 116 "flex_lexer.l"
+#line 134 "flex_lexer.l"
 TOKEN(FOR)
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 117 "flex_lexer.l"
+#line 135 "flex_lexer.l"
 TOKEN(FOREIGN)
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 118 "flex_lexer.l"
+#line 136 "flex_lexer.l"
 TOKEN(FORMAT)
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 119 "flex_lexer.l"
+#line 137 "flex_lexer.l"
 TOKEN(FROM)
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 120 "flex_lexer.l"
+#line 138 "flex_lexer.l"
 TOKEN(FULL)
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 121 "flex_lexer.l"
+#line 139 "flex_lexer.l"
 TOKEN(GLOBAL)
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 122 "flex_lexer.l"
+#line 140 "flex_lexer.l"
 TOKEN(GROUP)
 	YY_BREAK
 case 65:
 YY_RULE_SETUP
-#line 123 "flex_lexer.l"
+#line 141 "flex_lexer.l"
 TOKEN(GROUPS)
 	YY_BREAK
 case 66:
 YY_RULE_SETUP
-#line 124 "flex_lexer.l"
+#line 142 "flex_lexer.l"
 TOKEN(HASH)
 	YY_BREAK
 case 67:
 YY_RULE_SETUP
-#line 125 "flex_lexer.l"
+#line 143 "flex_lexer.l"
 TOKEN(HAVING)
 	YY_BREAK
 case 68:
 YY_RULE_SETUP
-#line 126 "flex_lexer.l"
+#line 144 "flex_lexer.l"
 TOKEN(HINT)
 	YY_BREAK
 case 69:
 YY_RULE_SETUP
-#line 127 "flex_lexer.l"
+#line 145 "flex_lexer.l"
 TOKEN(HOUR)
 	YY_BREAK
 case 70:
 YY_RULE_SETUP
-#line 128 "flex_lexer.l"
+#line 146 "flex_lexer.l"
 TOKEN(HOURS)
 	YY_BREAK
 case 71:
 YY_RULE_SETUP
-#line 129 "flex_lexer.l"
+#line 147 "flex_lexer.l"
 TOKEN(IF)
 	YY_BREAK
 case 72:
 YY_RULE_SETUP
-#line 130 "flex_lexer.l"
+#line 148 "flex_lexer.l"
 TOKEN(ILIKE)
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 131 "flex_lexer.l"
+#line 149 "flex_lexer.l"
 TOKEN(IMPORT)
 	YY_BREAK
 case 74:
 YY_RULE_SETUP
-#line 132 "flex_lexer.l"
+#line 150 "flex_lexer.l"
 TOKEN(IN)
 	YY_BREAK
 case 75:
 YY_RULE_SETUP
-#line 133 "flex_lexer.l"
+#line 151 "flex_lexer.l"
 TOKEN(INDEX)
 	YY_BREAK
 case 76:
 YY_RULE_SETUP
-#line 134 "flex_lexer.l"
+#line 152 "flex_lexer.l"
 TOKEN(INNER)
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
-#line 135 "flex_lexer.l"
+#line 153 "flex_lexer.l"
 TOKEN(INSERT)
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-#line 136 "flex_lexer.l"
+#line 154 "flex_lexer.l"
 TOKEN(INT)
 	YY_BREAK
 case 79:
 YY_RULE_SETUP
-#line 137 "flex_lexer.l"
+#line 155 "flex_lexer.l"
 TOKEN(INTEGER)
 	YY_BREAK
 case 80:
 YY_RULE_SETUP
-#line 138 "flex_lexer.l"
+#line 156 "flex_lexer.l"
 TOKEN(INTERSECT)
 	YY_BREAK
 case 81:
 YY_RULE_SETUP
-#line 139 "flex_lexer.l"
+#line 157 "flex_lexer.l"
 TOKEN(INTERVAL)
 	YY_BREAK
 case 82:
 YY_RULE_SETUP
-#line 140 "flex_lexer.l"
+#line 158 "flex_lexer.l"
 TOKEN(INTO)
 	YY_BREAK
 case 83:
 YY_RULE_SETUP
-#line 141 "flex_lexer.l"
+#line 159 "flex_lexer.l"
 TOKEN(IS)
 	YY_BREAK
 case 84:
 YY_RULE_SETUP
-#line 142 "flex_lexer.l"
+#line 160 "flex_lexer.l"
 TOKEN(ISNULL)
 	YY_BREAK
 case 85:
 YY_RULE_SETUP
-#line 143 "flex_lexer.l"
+#line 161 "flex_lexer.l"
 TOKEN(JOIN)
 	YY_BREAK
 case 86:
 YY_RULE_SETUP
-#line 144 "flex_lexer.l"
+#line 162 "flex_lexer.l"
 TOKEN(KEY)
 	YY_BREAK
 case 87:
 YY_RULE_SETUP
-#line 145 "flex_lexer.l"
+#line 163 "flex_lexer.l"
 TOKEN(LEFT)
 	YY_BREAK
 case 88:
 YY_RULE_SETUP
-#line 146 "flex_lexer.l"
+#line 164 "flex_lexer.l"
 TOKEN(LIKE)
 	YY_BREAK
 case 89:
 YY_RULE_SETUP
-#line 147 "flex_lexer.l"
+#line 165 "flex_lexer.l"
 TOKEN(LIMIT)
 	YY_BREAK
 case 90:
 YY_RULE_SETUP
-#line 148 "flex_lexer.l"
+#line 166 "flex_lexer.l"
 TOKEN(LOAD)
 	YY_BREAK
 case 91:
 YY_RULE_SETUP
-#line 149 "flex_lexer.l"
+#line 167 "flex_lexer.l"
 TOKEN(LOCAL)
 	YY_BREAK
 case 92:
 YY_RULE_SETUP
-#line 150 "flex_lexer.l"
+#line 168 "flex_lexer.l"
 TOKEN(LOCKED)
 	YY_BREAK
 case 93:
 YY_RULE_SETUP
-#line 151 "flex_lexer.l"
+#line 169 "flex_lexer.l"
 TOKEN(LONG)
 	YY_BREAK
 case 94:
 YY_RULE_SETUP
-#line 152 "flex_lexer.l"
+#line 170 "flex_lexer.l"
 TOKEN(MERGE)
 	YY_BREAK
 case 95:
 YY_RULE_SETUP
-#line 153 "flex_lexer.l"
+#line 171 "flex_lexer.l"
 TOKEN(MINUS)
 	YY_BREAK
 case 96:
 YY_RULE_SETUP
-#line 154 "flex_lexer.l"
+#line 172 "flex_lexer.l"
 TOKEN(MINUTE)
 	YY_BREAK
 case 97:
 YY_RULE_SETUP
-#line 155 "flex_lexer.l"
+#line 173 "flex_lexer.l"
 TOKEN(MINUTES)
 	YY_BREAK
 case 98:
 YY_RULE_SETUP
-#line 156 "flex_lexer.l"
+#line 174 "flex_lexer.l"
 TOKEN(MONTH)
 	YY_BREAK
 case 99:
 YY_RULE_SETUP
-#line 157 "flex_lexer.l"
+#line 175 "flex_lexer.l"
 TOKEN(MONTHS)
 	YY_BREAK
 case 100:
 YY_RULE_SETUP
-#line 158 "flex_lexer.l"
+#line 176 "flex_lexer.l"
 TOKEN(NATURAL)
 	YY_BREAK
 case 101:
 YY_RULE_SETUP
-#line 159 "flex_lexer.l"
+#line 177 "flex_lexer.l"
 TOKEN(NO)
 	YY_BREAK
 case 102:
 YY_RULE_SETUP
-#line 160 "flex_lexer.l"
+#line 178 "flex_lexer.l"
 TOKEN(NOT)
 	YY_BREAK
 case 103:
 YY_RULE_SETUP
-#line 161 "flex_lexer.l"
+#line 179 "flex_lexer.l"
 TOKEN(NOWAIT)
 	YY_BREAK
 case 104:
 YY_RULE_SETUP
-#line 162 "flex_lexer.l"
+#line 180 "flex_lexer.l"
 TOKEN(NULL)
 	YY_BREAK
 case 105:
 YY_RULE_SETUP
-#line 163 "flex_lexer.l"
+#line 181 "flex_lexer.l"
 TOKEN(NVARCHAR)
 	YY_BREAK
 case 106:
 YY_RULE_SETUP
-#line 164 "flex_lexer.l"
+#line 182 "flex_lexer.l"
 TOKEN(OF)
 	YY_BREAK
 case 107:
 YY_RULE_SETUP
-#line 165 "flex_lexer.l"
+#line 183 "flex_lexer.l"
 TOKEN(OFF)
 	YY_BREAK
 case 108:
 YY_RULE_SETUP
-#line 166 "flex_lexer.l"
+#line 184 "flex_lexer.l"
 TOKEN(OFFSET)
 	YY_BREAK
 case 109:
 YY_RULE_SETUP
-#line 167 "flex_lexer.l"
+#line 185 "flex_lexer.l"
 TOKEN(ON)
 	YY_BREAK
 case 110:
 YY_RULE_SETUP
-#line 168 "flex_lexer.l"
+#line 186 "flex_lexer.l"
 TOKEN(OR)
 	YY_BREAK
 case 111:
 YY_RULE_SETUP
-#line 169 "flex_lexer.l"
+#line 187 "flex_lexer.l"
 TOKEN(ORDER)
 	YY_BREAK
 case 112:
 YY_RULE_SETUP
-#line 170 "flex_lexer.l"
+#line 188 "flex_lexer.l"
 TOKEN(OUTER)
 	YY_BREAK
 case 113:
 YY_RULE_SETUP
-#line 171 "flex_lexer.l"
+#line 189 "flex_lexer.l"
 TOKEN(OVER)
 	YY_BREAK
 case 114:
 YY_RULE_SETUP
-#line 172 "flex_lexer.l"
+#line 190 "flex_lexer.l"
 TOKEN(PARAMETERS)
 	YY_BREAK
 case 115:
 YY_RULE_SETUP
-#line 173 "flex_lexer.l"
+#line 191 "flex_lexer.l"
 TOKEN(PARTITION)
 	YY_BREAK
 case 116:
 YY_RULE_SETUP
-#line 174 "flex_lexer.l"
+#line 192 "flex_lexer.l"
 TOKEN(PLAN)
 	YY_BREAK
 case 117:
 YY_RULE_SETUP
-#line 175 "flex_lexer.l"
+#line 193 "flex_lexer.l"
 TOKEN(PRECEDING)
 	YY_BREAK
 case 118:
 YY_RULE_SETUP
-#line 176 "flex_lexer.l"
+#line 194 "flex_lexer.l"
 TOKEN(PREPARE)
 	YY_BREAK
 case 119:
 YY_RULE_SETUP
-#line 177 "flex_lexer.l"
+#line 195 "flex_lexer.l"
 TOKEN(PRIMARY)
 	YY_BREAK
 case 120:
 YY_RULE_SETUP
-#line 178 "flex_lexer.l"
+#line 196 "flex_lexer.l"
 TOKEN(RANGE)
 	YY_BREAK
 case 121:
 YY_RULE_SETUP
-#line 179 "flex_lexer.l"
+#line 197 "flex_lexer.l"
 TOKEN(REAL)
 	YY_BREAK
 case 122:
 YY_RULE_SETUP
-#line 180 "flex_lexer.l"
+#line 198 "flex_lexer.l"
 TOKEN(REFERENCES)
 	YY_BREAK
 case 123:
 YY_RULE_SETUP
-#line 181 "flex_lexer.l"
+#line 199 "flex_lexer.l"
 TOKEN(RENAME)
 	YY_BREAK
 case 124:
 YY_RULE_SETUP
-#line 182 "flex_lexer.l"
+#line 200 "flex_lexer.l"
 TOKEN(RESTRICT)
 	YY_BREAK
 case 125:
 YY_RULE_SETUP
-#line 183 "flex_lexer.l"
+#line 201 "flex_lexer.l"
 TOKEN(RIGHT)
 	YY_BREAK
 case 126:
 YY_RULE_SETUP
-#line 184 "flex_lexer.l"
+#line 202 "flex_lexer.l"
 TOKEN(ROLLBACK)
 	YY_BREAK
 case 127:
 YY_RULE_SETUP
-#line 185 "flex_lexer.l"
+#line 203 "flex_lexer.l"
 TOKEN(ROWS)
 	YY_BREAK
 case 128:
 YY_RULE_SETUP
-#line 186 "flex_lexer.l"
+#line 204 "flex_lexer.l"
 TOKEN(SCHEMA)
 	YY_BREAK
 case 129:
 YY_RULE_SETUP
-#line 187 "flex_lexer.l"
+#line 205 "flex_lexer.l"
 TOKEN(SCHEMAS)
 	YY_BREAK
 case 130:
 YY_RULE_SETUP
-#line 188 "flex_lexer.l"
+#line 206 "flex_lexer.l"
 TOKEN(SECOND)
 	YY_BREAK
 case 131:
 YY_RULE_SETUP
-#line 189 "flex_lexer.l"
+#line 207 "flex_lexer.l"
 TOKEN(SECONDS)
 	YY_BREAK
 case 132:
 YY_RULE_SETUP
-#line 190 "flex_lexer.l"
+#line 208 "flex_lexer.l"
 TOKEN(SELECT)
 	YY_BREAK
 case 133:
 YY_RULE_SETUP
-#line 191 "flex_lexer.l"
+#line 209 "flex_lexer.l"
 TOKEN(SET)
 	YY_BREAK
 case 134:
 YY_RULE_SETUP
-#line 192 "flex_lexer.l"
+#line 210 "flex_lexer.l"
 TOKEN(SHARE)
 	YY_BREAK
 case 135:
 YY_RULE_SETUP
-#line 193 "flex_lexer.l"
+#line 211 "flex_lexer.l"
 TOKEN(SHOW)
 	YY_BREAK
 case 136:
 YY_RULE_SETUP
-#line 194 "flex_lexer.l"
+#line 212 "flex_lexer.l"
 TOKEN(SKIP)
 	YY_BREAK
 case 137:
 YY_RULE_SETUP
-#line 195 "flex_lexer.l"
+#line 213 "flex_lexer.l"
 TOKEN(SMALLINT)
 	YY_BREAK
 case 138:
 YY_RULE_SETUP
-#line 196 "flex_lexer.l"
+#line 214 "flex_lexer.l"
 TOKEN(SORTED)
 	YY_BREAK
 case 139:
 YY_RULE_SETUP
-#line 197 "flex_lexer.l"
+#line 215 "flex_lexer.l"
 TOKEN(SPATIAL)
 	YY_BREAK
 case 140:
 YY_RULE_SETUP
-#line 198 "flex_lexer.l"
+#line 216 "flex_lexer.l"
 TOKEN(TABLE)
 	YY_BREAK
 case 141:
 YY_RULE_SETUP
-#line 199 "flex_lexer.l"
+#line 217 "flex_lexer.l"
 TOKEN(TABLES)
 	YY_BREAK
 case 142:
 YY_RULE_SETUP
-#line 200 "flex_lexer.l"
+#line 218 "flex_lexer.l"
 TOKEN(TEMPORARY)
 	YY_BREAK
 case 143:
 YY_RULE_SETUP
-#line 201 "flex_lexer.l"
+#line 219 "flex_lexer.l"
 TOKEN(TEXT)
 	YY_BREAK
 case 144:
 YY_RULE_SETUP
-#line 202 "flex_lexer.l"
+#line 220 "flex_lexer.l"
 TOKEN(THEN)
 	YY_BREAK
 case 145:
 YY_RULE_SETUP
-#line 203 "flex_lexer.l"
+#line 221 "flex_lexer.l"
 TOKEN(TIME)
 	YY_BREAK
 case 146:
 YY_RULE_SETUP
-#line 204 "flex_lexer.l"
+#line 222 "flex_lexer.l"
 TOKEN(TIMESTAMP)
 	YY_BREAK
 case 147:
 YY_RULE_SETUP
-#line 205 "flex_lexer.l"
+#line 223 "flex_lexer.l"
 TOKEN(TO)
 	YY_BREAK
 case 148:
 YY_RULE_SETUP
-#line 206 "flex_lexer.l"
+#line 224 "flex_lexer.l"
 TOKEN(TOP)
 	YY_BREAK
 case 149:
 YY_RULE_SETUP
-#line 207 "flex_lexer.l"
+#line 225 "flex_lexer.l"
 TOKEN(TRANSACTION)
 	YY_BREAK
 case 150:
 YY_RULE_SETUP
-#line 208 "flex_lexer.l"
+#line 226 "flex_lexer.l"
 TOKEN(TRUE)
 	YY_BREAK
 case 151:
 YY_RULE_SETUP
-#line 209 "flex_lexer.l"
+#line 227 "flex_lexer.l"
 TOKEN(TRUNCATE)
 	YY_BREAK
 case 152:
 YY_RULE_SETUP
-#line 210 "flex_lexer.l"
+#line 228 "flex_lexer.l"
 TOKEN(UNBOUNDED)
 	YY_BREAK
 case 153:
 YY_RULE_SETUP
-#line 211 "flex_lexer.l"
+#line 229 "flex_lexer.l"
 TOKEN(UNION)
 	YY_BREAK
 case 154:
 YY_RULE_SETUP
-#line 212 "flex_lexer.l"
+#line 230 "flex_lexer.l"
 TOKEN(UNIQUE)
 	YY_BREAK
 case 155:
 YY_RULE_SETUP
-#line 213 "flex_lexer.l"
+#line 231 "flex_lexer.l"
 TOKEN(UNLOAD)
 	YY_BREAK
 case 156:
 YY_RULE_SETUP
-#line 214 "flex_lexer.l"
+#line 232 "flex_lexer.l"
 TOKEN(UPDATE)
 	YY_BREAK
 case 157:
 YY_RULE_SETUP
-#line 215 "flex_lexer.l"
+#line 233 "flex_lexer.l"
 TOKEN(USING)
 	YY_BREAK
 case 158:
 YY_RULE_SETUP
-#line 216 "flex_lexer.l"
+#line 234 "flex_lexer.l"
 TOKEN(VALUES)
 	YY_BREAK
 case 159:
 YY_RULE_SETUP
-#line 217 "flex_lexer.l"
+#line 235 "flex_lexer.l"
 TOKEN(VARCHAR)
 	YY_BREAK
 case 160:
 YY_RULE_SETUP
-#line 218 "flex_lexer.l"
+#line 236 "flex_lexer.l"
 TOKEN(VIEW)
 	YY_BREAK
 case 161:
 YY_RULE_SETUP
-#line 219 "flex_lexer.l"
+#line 237 "flex_lexer.l"
 TOKEN(VIRTUAL)
 	YY_BREAK
 case 162:
 YY_RULE_SETUP
-#line 220 "flex_lexer.l"
+#line 238 "flex_lexer.l"
 TOKEN(WHEN)
 	YY_BREAK
 case 163:
 YY_RULE_SETUP
-#line 221 "flex_lexer.l"
+#line 239 "flex_lexer.l"
 TOKEN(WHERE)
 	YY_BREAK
 case 164:
 YY_RULE_SETUP
-#line 222 "flex_lexer.l"
+#line 240 "flex_lexer.l"
 TOKEN(WITH)
 	YY_BREAK
 case 165:
 YY_RULE_SETUP
-#line 223 "flex_lexer.l"
+#line 241 "flex_lexer.l"
 TOKEN(YEAR)
 	YY_BREAK
 case 166:
 YY_RULE_SETUP
-#line 224 "flex_lexer.l"
+#line 242 "flex_lexer.l"
 TOKEN(YEARS)
 	YY_BREAK
 case 167:
 /* rule 167 can match eol */
 YY_RULE_SETUP
-#line 226 "flex_lexer.l"
+#line 244 "flex_lexer.l"
 TOKEN(CURRENT_ROW)
 	YY_BREAK
 case 168:
 /* rule 168 can match eol */
 YY_RULE_SETUP
-#line 227 "flex_lexer.l"
+#line 245 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
 /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
 case 169:
 YY_RULE_SETUP
-#line 230 "flex_lexer.l"
+#line 248 "flex_lexer.l"
 TOKEN(EQUALS)
 	YY_BREAK
 case 170:
 YY_RULE_SETUP
-#line 231 "flex_lexer.l"
+#line 249 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 171:
 YY_RULE_SETUP
-#line 232 "flex_lexer.l"
+#line 250 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 172:
 YY_RULE_SETUP
-#line 233 "flex_lexer.l"
+#line 251 "flex_lexer.l"
 TOKEN(LESSEQ)
 	YY_BREAK
 case 173:
 YY_RULE_SETUP
-#line 234 "flex_lexer.l"
+#line 252 "flex_lexer.l"
 TOKEN(GREATEREQ)
 	YY_BREAK
 case 174:
 YY_RULE_SETUP
-#line 235 "flex_lexer.l"
+#line 253 "flex_lexer.l"
 TOKEN(CONCAT)
 	YY_BREAK
 case 175:
 YY_RULE_SETUP
-#line 237 "flex_lexer.l"
+#line 255 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
 case 176:
-#line 240 "flex_lexer.l"
+#line 258 "flex_lexer.l"
 case 177:
 YY_RULE_SETUP
-#line 240 "flex_lexer.l"
+#line 258 "flex_lexer.l"
 {
   yylval->fval = atof(yytext);
   return SQL_FLOATVAL;
@@ -2493,7 +2511,7 @@ YY_RULE_SETUP
    */
 case 178:
 YY_RULE_SETUP
-#line 250 "flex_lexer.l"
+#line 268 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
@@ -2501,7 +2519,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 179:
 YY_RULE_SETUP
-#line 255 "flex_lexer.l"
+#line 273 "flex_lexer.l"
 {
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
@@ -2514,7 +2532,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 180:
 YY_RULE_SETUP
-#line 265 "flex_lexer.l"
+#line 283 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
@@ -2523,53 +2541,61 @@ YY_RULE_SETUP
 	YY_BREAK
 case 181:
 YY_RULE_SETUP
-#line 271 "flex_lexer.l"
+#line 289 "flex_lexer.l"
 {
-  yylval->sval = strdup(yytext);
+  yylval->sval = copyText(yytext);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
 case 182:
 YY_RULE_SETUP
-#line 276 "flex_lexer.l"
+#line 294 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
 case 183:
 YY_RULE_SETUP
-#line 277 "flex_lexer.l"
+#line 295 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
 case 184:
 /* rule 184 can match eol */
 YY_RULE_SETUP
-#line 278 "flex_lexer.l"
+#line 296 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
 case 185:
 YY_RULE_SETUP
-#line 279 "flex_lexer.l"
+#line 297 "flex_lexer.l"
 { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null character in string\n"); return SQL_INVALID; }
 	YY_BREAK
 case 186:
 YY_RULE_SETUP
-#line 280 "flex_lexer.l"
-{ BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
+#line 298 "flex_lexer.l"
+{
+  BEGIN 0;
+  // The stream swallows failing allocations.
+  if (!strbuf) {
+    throw std::bad_alloc();
+  }
+  yylval->sval = copyText(strbuf.str().c_str());
+  return SQL_STRING;
+}
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 281 "flex_lexer.l"
+#line 307 "flex_lexer.l"
 { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 	YY_BREAK
 case 187:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 309 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 	YY_BREAK
 case 188:
 YY_RULE_SETUP
-#line 285 "flex_lexer.l"
+#line 311 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2573 "flex_lexer.cpp"
+#line 2599 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -3725,7 +3751,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 285 "flex_lexer.l"
+#line 311 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index b32451b..3d0c29d 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -729,7 +729,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 285 "flex_lexer.l"
+#line 311 "flex_lexer.l"
 
 
 #line 736 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 49f844d..225d158 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -14,12 +14,30 @@
 #include "bison_parser.h"
 #include <climits>
 #include <stdio.h>
+#include <new>
 #include <sstream>
 
 #define TOKEN(name) { return SQL_##name; }
 
+// The scanner reads from memory only, so failing allocations are its only fatal errors. By default, it would exit the
+// process. yy_fatal_error() is never reached, but the compiler would complain if it was not used at all.
+#define YY_FATAL_ERROR(msg)         \
+  do {                              \
+    throw std::bad_alloc();         \
+    yy_fatal_error(msg, yyscanner); \
+  } while (0)
+
 static thread_local std::stringstream strbuf;
 
+// Like strdup, but throws if there is no memory left.
+static char* copyText(const char* text) {
+  char* copy = strdup(text);
+  if (!copy) {
+    throw std::bad_alloc();
+  }
+  return copy;
+}
+
 %}
 %x singlequotedstring
 
@@ -269,7 +287,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 }
 
 [A-Za-z][A-Za-z0-9_]* {
-  yylval->sval = strdup(yytext);
+  yylval->sval = copyText(yytext);
   return SQL_IDENTIFIER;
 }
 
@@ -277,7 +295,15 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 <singlequotedstring>\'\'    { strbuf << '\''; }
 <singlequotedstring>[^'\0]+ { strbuf << yytext; }
 <singlequotedstring>\0      { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null character in string\n"); return SQL_INVALID; }
-<singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
+<singlequotedstring>\'      {
+  BEGIN 0;
+  // The stream swallows failing allocations.
+  if (!strbuf) {
+    throw std::bad_alloc();
+  }
+  yylval->sval = copyText(strbuf.str().c_str());
+  return SQL_STRING;
+}
 <singlequotedstring><<EOF>> { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 
 . { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
diff --git a/src/sql/Expr.cpp b/src/sql/Expr.cpp
index a553121..d9c1f07 100644
--- a/src/sql/Expr.cpp
+++ b/src/sql/Expr.cpp
@@ -3,6 +3,7 @@
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
+#include <new>
 
 #include "SelectStatement.h"
 
@@ -316,7 +317,9 @@ const char* Expr::getName() const {
 char* substr(const char* source, int from, int to) {
   int len = to - from;
   char* copy = (char*)malloc(len + 1);
-  ;
+  if (!copy) {
+    throw std::bad_alloc();
+  }
   strncpy(copy, source + from, len);
   copy[len] = '\0';
   return copy;
-- 
2.43.0


From 949d7bd0cb14f79c6ac46c5ad697b4ba943ed052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 12/14] fix: decimal literals are cut at the point in locales
 with a decimal comma

---
 src/parser/flex_lexer.cpp | 413 ++++++++++++++++++++------------------
 src/parser/flex_lexer.h   |   2 +-
 src/parser/flex_lexer.l   |  23 ++-
 3 files changed, 240 insertions(+), 198 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index ef8e6db..424d047 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -1239,6 +1239,9 @@ static const flex_int16_t yy_chk[1555] =
 #include "bison_parser.h"
 #include <climits>
 #include <stdio.h>
+#include <cmath>
+#include <limits>
+#include <locale>
 #include <new>
 #include <sstream>
 
@@ -1263,7 +1266,25 @@ static char* copyText(const char* text) {
   return copy;
 }
 
-#line 1267 "flex_lexer.cpp"
+// Like atof, but the decimal separator is a point whatever the locale of the process is.
+static double parseFloat(const char* text) {
+  std::istringstream stream(text);
+  stream.imbue(std::locale::classic());
+  double value = 0.0;
+  if (!(stream >> value)) {
+    // The stream swallows failing allocations.
+    if (stream.bad()) {
+      throw std::bad_alloc();
+    }
+    // Streams limit values that are out of range to the largest finite value.
+    if (value == std::numeric_limits<double>::max()) {
+      value = HUGE_VAL;
+    }
+  }
+  return value;
+}
+
+#line 1288 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1276,7 +1297,7 @@ static char* copyText(const char* text) {
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1280 "flex_lexer.cpp"
+#line 1301 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1559,10 +1580,10 @@ YY_DECL
 		}
 
 	{
-#line 73 "flex_lexer.l"
+#line 94 "flex_lexer.l"
 
 
-#line 1566 "flex_lexer.cpp"
+#line 1587 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1617,890 +1638,890 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 75 "flex_lexer.l"
+#line 96 "flex_lexer.l"
 /* skip comment until the end of the line */;
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 77 "flex_lexer.l"
+#line 98 "flex_lexer.l"
 /* skip whitespace */;
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 79 "flex_lexer.l"
+#line 100 "flex_lexer.l"
 TOKEN(ADD)
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 80 "flex_lexer.l"
+#line 101 "flex_lexer.l"
 TOKEN(AFTER)
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 81 "flex_lexer.l"
+#line 102 "flex_lexer.l"
 TOKEN(ALL)
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 82 "flex_lexer.l"
+#line 103 "flex_lexer.l"
 TOKEN(ALTER)
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 83 "flex_lexer.l"
+#line 104 "flex_lexer.l"
 TOKEN(ANALYZE)
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 84 "flex_lexer.l"
+#line 105 "flex_lexer.l"
 TOKEN(AND)
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 85 "flex_lexer.l"
+#line 106 "flex_lexer.l"
 TOKEN(ARRAY)
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 86 "flex_lexer.l"
+#line 107 "flex_lexer.l"
 TOKEN(AS)
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 87 "flex_lexer.l"
+#line 108 "flex_lexer.l"
 TOKEN(ASC)
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 88 "flex_lexer.l"
+#line 109 "flex_lexer.l"
 TOKEN(BEFORE)
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 89 "flex_lexer.l"
+#line 110 "flex_lexer.l"
 TOKEN(BEGIN)
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 90 "flex_lexer.l"
+#line 111 "flex_lexer.l"
 TOKEN(BETWEEN)
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 91 "flex_lexer.l"
+#line 112 "flex_lexer.l"
 TOKEN(BIGINT)
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 92 "flex_lexer.l"
+#line 113 "flex_lexer.l"
 TOKEN(BOOLEAN)
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 93 "flex_lexer.l"
+#line 114 "flex_lexer.l"
 TOKEN(BY)
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 94 "flex_lexer.l"
+#line 115 "flex_lexer.l"
 TOKEN(CALL)
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 95 "flex_lexer.l"
+#line 116 "flex_lexer.l"
 TOKEN(CASCADE)
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 96 "flex_lexer.l"
+#line 117 "flex_lexer.l"
 TOKEN(CASE)
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 97 "flex_lexer.l"
+#line 118 "flex_lexer.l"
 TOKEN(CAST)
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 98 "flex_lexer.l"
+#line 119 "flex_lexer.l"
 TOKEN(CHAR)
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 99 "flex_lexer.l"
+#line 120 "flex_lexer.l"
 TOKEN(COLUMN)
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 100 "flex_lexer.l"
+#line 121 "flex_lexer.l"
 TOKEN(COLUMNS)
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 101 "flex_lexer.l"
+#line 122 "flex_lexer.l"
 TOKEN(COMMIT)
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 102 "flex_lexer.l"
+#line 123 "flex_lexer.l"
 TOKEN(CONTROL)
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 103 "flex_lexer.l"
+#line 124 "flex_lexer.l"
 TOKEN(COPY)
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 104 "flex_lexer.l"
+#line 125 "flex_lexer.l"
 TOKEN(CREATE)
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 105 "flex_lexer.l"
+#line 126 "flex_lexer.l"
 TOKEN(CROSS)
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 106 "flex_lexer.l"
+#line 127 "flex_lexer.l"
 TOKEN(DATE)
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 107 "flex_lexer.l"
+#line 128 "flex_lexer.l"
 TOKEN(DATETIME)
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 108 "flex_lexer.l"
+#line 129 "flex_lexer.l"
 TOKEN(DAY)
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 109 "flex_lexer.l"
+#line 130 "flex_lexer.l"
 TOKEN(DAYS)
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 110 "flex_lexer.l"
+#line 131 "flex_lexer.l"
 TOKEN(DEALLOCATE)
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 111 "flex_lexer.l"
+#line 132 "flex_lexer.l"
 TOKEN(DECIMAL)
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 112 "flex_lexer.l"
+#line 133 "flex_lexer.l"
 TOKEN(DEFAULT)
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 113 "flex_lexer.l"
+#line 134 "flex_lexer.l"
 TOKEN(DELETE)
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 114 "flex_lexer.l"
+#line 135 "flex_lexer.l"
 TOKEN(DELTA)
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 115 "flex_lexer.l"
+#line 136 "flex_lexer.l"
 TOKEN(DESC)
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 116 "flex_lexer.l"
+#line 137 "flex_lexer.l"
 TOKEN(DESCRIBE)
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 117 "flex_lexer.l"
+#line 138 "flex_lexer.l"
 TOKEN(DIRECT)
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 118 "flex_lexer.l"
+#line 139 "flex_lexer.l"
 TOKEN(DISTINCT)
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 119 "flex_lexer.l"
+#line 140 "flex_lexer.l"
 TOKEN(DOUBLE)
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 120 "flex_lexer.l"
+#line 141 "flex_lexer.l"
 TOKEN(DROP)
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 121 "flex_lexer.l"
+#line 142 "flex_lexer.l"
 TOKEN(ELSE)
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 122 "flex_lexer.l"
+#line 143 "flex_lexer.l"
 TOKEN(ENCODING)
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 123 "flex_lexer.l"
+#line 144 "flex_lexer.l"
 TOKEN(END)
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 124 "flex_lexer.l"
+#line 145 "flex_lexer.l"
 TOKEN(ESCAPE)
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 125 "flex_lexer.l"
+#line 146 "flex_lexer.l"
 TOKEN(EXCEPT)
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 126 "flex_lexer.l"
+#line 147 "flex_lexer.l"
 TOKEN(EXECUTE)
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 127 "flex_lexer.l"
+#line 148 "flex_lexer.l"
 TOKEN(EXISTS)
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 128 "flex_lexer.l"
+#line 149 "flex_lexer.l"
 TOKEN(EXPLAIN)
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 129 "flex_lexer.l"
+#line 150 "flex_lexer.l"
 TOKEN(EXTRACT)
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 130 "flex_lexer.l"
+#line 151 "flex_lexer.l"
 TOKEN(FALSE)
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 131 "flex_lexer.l"
+#line 152 "flex_lexer.l"
 TOKEN(FILE)
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 132 "flex_lexer.l"
+#line 153 "flex_lexer.l"
 TOKEN(FLOAT)
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 133 "flex_lexer.l"
+#line 154 "flex_lexer.l"
 TOKEN(FOLLOWING)
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 134 "flex_lexer.l"
+#line 155 "flex_lexer.l"
 TOKEN(FOR)
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 135 "flex_lexer.l"
+#line 156 "flex_lexer.l"
 TOKEN(FOREIGN)
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 136 "flex_lexer.l"
+#line 157 "flex_lexer.l"
 TOKEN(FORMAT)
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 137 "flex_lexer.l"
+#line 158 "flex_lexer.l"
 TOKEN(FROM)
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 138 "flex_lexer.l"
+#line 159 "flex_lexer.l"
 TOKEN(FULL)
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 139 "flex_lexer.l"
+#line 160 "flex_lexer.l"
 TOKEN(GLOBAL)
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 140 "flex_lexer.l"
+#line 161 "flex_lexer.l"
 TOKEN(GROUP)
 	YY_BREAK
 case 65:
 YY_RULE_SETUP
-#line 141 "flex_lexer.l"
+#line 162 "flex_lexer.l"
 TOKEN(GROUPS)
 	YY_BREAK
 case 66:
 YY_RULE_SETUP
-#line 142 "flex_lexer.l"
+#line 163 "flex_lexer.l"
 TOKEN(HASH)
 	YY_BREAK
 case 67:
 YY_RULE_SETUP
-#line 143 "flex_lexer.l"
+#line 164 "flex_lexer.l"
 TOKEN(HAVING)
 	YY_BREAK
 case 68:
 YY_RULE_SETUP
-#line 144 "flex_lexer.l"
+#line 165 "flex_lexer.l"
 TOKEN(HINT)
 	YY_BREAK
 case 69:
 YY_RULE_SETUP
-#line 145 "flex_lexer.l"
+#line 166 "flex_lexer.l"
 TOKEN(HOUR)
 	YY_BREAK
 case 70:
 YY_RULE_SETUP
-#line 146 "flex_lexer.l"
+#line 167 "flex_lexer.l"
 TOKEN(HOURS)
 	YY_BREAK
 case 71:
 YY_RULE_SETUP
-#line 147 "flex_lexer.l"
+#line 168 "flex_lexer.l"
 TOKEN(IF)
 	YY_BREAK
 case 72:
 YY_RULE_SETUP
-#line 148 "flex_lexer.l"
+#line 169 "flex_lexer.l"
 TOKEN(ILIKE)
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 149 "flex_lexer.l"
+#line 170 "flex_lexer.l"
 TOKEN(IMPORT)
 	YY_BREAK
 case 74:
 YY_RULE_SETUP
-#line 150 "flex_lexer.l"
+#line 171 "flex_lexer.l"
 TOKEN(IN)
 	YY_BREAK
 case 75:
 YY_RULE_SETUP
-#line 151 "flex_lexer.l"
+#line 172 "flex_lexer.l"
 TOKEN(INDEX)
 	YY_BREAK
 case 76:
 YY_RULE_SETUP
-#line 152 "flex_lexer.l"
+#line 173 "flex_lexer.l"
 TOKEN(INNER)
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
-#line 153 "flex_lexer.l"
+#line 174 "flex_lexer.l"
 TOKEN(INSERT)
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-#line 154 "flex_lexer.l"
+#line 175 "flex_lexer.l"
 TOKEN(INT)
 	YY_BREAK
 case 79:
 YY_RULE_SETUP
-#line 155 "flex_lexer.l"
+#line 176 "flex_lexer.l"
 TOKEN(INTEGER)
 	YY_BREAK
 case 80:
 YY_RULE_SETUP
-#line 156 "flex_lexer.l"
+#line 177 "flex_lexer.l"
 TOKEN(INTERSECT)
 	YY_BREAK
 case 81:
 YY_RULE_SETUP
-#line 157 "flex_lexer.l"
+#line 178 "flex_lexer.l"
 TOKEN(INTERVAL)
 	YY_BREAK
 case 82:
 YY_RULE_SETUP
-#line 158 "flex_lexer.l"
+#line 179 "flex_lexer.l"
 TOKEN(INTO)
 	YY_BREAK
 case 83:
 YY_RULE_SETUP
-#line 159 "flex_lexer.l"
+#line 180 "flex_lexer.l"
 TOKEN(IS)
 	YY_BREAK
 case 84:
 YY_RULE_SETUP
-#line 160 "flex_lexer.l"
+#line 181 "flex_lexer.l"
 TOKEN(ISNULL)
 	YY_BREAK
 case 85:
 YY_RULE_SETUP
-#line 161 "flex_lexer.l"
+#line 182 "flex_lexer.l"
 TOKEN(JOIN)
 	YY_BREAK
 case 86:
 YY_RULE_SETUP
-#line 162 "flex_lexer.l"
+#line 183 "flex_lexer.l"
 TOKEN(KEY)
 	YY_BREAK
 case 87:
 YY_RULE_SETUP
-#line 163 "flex_lexer.l"
+#line 184 "flex_lexer.l"
 TOKEN(LEFT)
 	YY_BREAK
 case 88:
 YY_RULE_SETUP
-#line 164 "flex_lexer.l"
+#line 185 "flex_lexer.l"
 TOKEN(LIKE)
 	YY_BREAK
 case 89:
 YY_RULE_SETUP
-#line 165 "flex_lexer.l"
+#line 186 "flex_lexer.l"
 TOKEN(LIMIT)
 	YY_BREAK
 case 90:
 YY_RULE_SETUP
-#line 166 "flex_lexer.l"
+#line 187 "flex_lexer.l"
 TOKEN(LOAD)
 	YY_BREAK
 case 91:
 YY_RULE_SETUP
-#line 167 "flex_lexer.l"
+#line 188 "flex_lexer.l"
 TOKEN(LOCAL)
 	YY_BREAK
 case 92:
 YY_RULE_SETUP
-#line 168 "flex_lexer.l"
+#line 189 "flex_lexer.l"
 TOKEN(LOCKED)
 	YY_BREAK
 case 93:
 YY_RULE_SETUP
-#line 169 "flex_lexer.l"
+#line 190 "flex_lexer.l"
 TOKEN(LONG)
 	YY_BREAK
 case 94:
 YY_RULE_SETUP
-#line 170 "flex_lexer.l"
+#line 191 "flex_lexer.l"
 TOKEN(MERGE)
 	YY_BREAK
 case 95:
 YY_RULE_SETUP
-#line 171 "flex_lexer.l"
+#line 192 "flex_lexer.l"
 TOKEN(MINUS)
 	YY_BREAK
 case 96:
 YY_RULE_SETUP
-#line 172 "flex_lexer.l"
+#line 193 "flex_lexer.l"
 TOKEN(MINUTE)
 	YY_BREAK
 case 97:
 YY_RULE_SETUP
-#line 173 "flex_lexer.l"
+#line 194 "flex_lexer.l"
 TOKEN(MINUTES)
 	YY_BREAK
 case 98:
 YY_RULE_SETUP
-#line 174 "flex_lexer.l"
+#line 195 "flex_lexer.l"
 TOKEN(MONTH)
 	YY_BREAK
 case 99:
 YY_RULE_SETUP
-#line 175 "flex_lexer.l"
+#line 196 "flex_lexer.l"
 TOKEN(MONTHS)
 	YY_BREAK
 case 100:
 YY_RULE_SETUP
-#line 176 "flex_lexer.l"
+#line 197 "flex_lexer.l"
 TOKEN(NATURAL)
 	YY_BREAK
 case 101:
 YY_RULE_SETUP
-#line 177 "flex_lexer.l"
+#line 198 "flex_lexer.l"
 TOKEN(NO)
 	YY_BREAK
 case 102:
 YY_RULE_SETUP
-#line 178 "flex_lexer.l"
+#line 199 "flex_lexer.l"
 TOKEN(NOT)
 	YY_BREAK
 case 103:
 YY_RULE_SETUP
-#line 179 "flex_lexer.l"
+#line 200 "flex_lexer.l"
 TOKEN(NOWAIT)
 	YY_BREAK
 case 104:
 YY_RULE_SETUP
-#line 180 "flex_lexer.l"
+#line 201 "flex_lexer.l"
 TOKEN(NULL)
 	YY_BREAK
 case 105:
 YY_RULE_SETUP
-#line 181 "flex_lexer.l"
+#line 202 "flex_lexer.l"
 TOKEN(NVARCHAR)
 	YY_BREAK
 case 106:
 YY_RULE_SETUP
-#line 182 "flex_lexer.l"
+#line 203 "flex_lexer.l"
 TOKEN(OF)
 	YY_BREAK
 case 107:
 YY_RULE_SETUP
-#line 183 "flex_lexer.l"
+#line 204 "flex_lexer.l"
 TOKEN(OFF)
 	YY_BREAK
 case 108:
 YY_RULE_SETUP
-#line 184 "flex_lexer.l"
+#line 205 "flex_lexer.l"
 TOKEN(OFFSET)
 	YY_BREAK
 case 109:
 YY_RULE_SETUP
-#line 185 "flex_lexer.l"
+#line 206 "flex_lexer.l"
 TOKEN(ON)
 	YY_BREAK
 case 110:
 YY_RULE_SETUP
-#line 186 "flex_lexer.l"
+#line 207 "flex_lexer.l"
 TOKEN(OR)
 	YY_BREAK
 case 111:
 YY_RULE_SETUP
-#line 187 "flex_lexer.l"
+#line 208 "flex_lexer.l"
 TOKEN(ORDER)
 	YY_BREAK
 case 112:
 YY_RULE_SETUP
-#line 188 "flex_lexer.l"
+#line 209 "flex_lexer.l"
 TOKEN(OUTER)
 	YY_BREAK
 case 113:
 YY_RULE_SETUP
-#line 189 "flex_lexer.l"
+#line 210 "flex_lexer.l"
 TOKEN(OVER)
 	YY_BREAK
 case 114:
 YY_RULE_SETUP
-#line 190 "flex_lexer.l"
+#line 211 "flex_lexer.l"
 TOKEN(PARAMETERS)
 	YY_BREAK
 case 115:
 YY_RULE_SETUP
-#line 191 "flex_lexer.l"
+#line 212 "flex_lexer.l"
 TOKEN(PARTITION)
 	YY_BREAK
 case 116:
 YY_RULE_SETUP
-#line 192 "flex_lexer.l"
+#line 213 "flex_lexer.l"
 TOKEN(PLAN)
 	YY_BREAK
 case 117:
 YY_RULE_SETUP
-#line 193 "flex_lexer.l"
+#line 214 "flex_lexer.l"
 TOKEN(PRECEDING)
 	YY_BREAK
 case 118:
 YY_RULE_SETUP
-#line 194 "flex_lexer.l"
+#line 215 "flex_lexer.l"
 TOKEN(PREPARE)
 	YY_BREAK
 case 119:
 YY_RULE_SETUP
-#line 195 "flex_lexer.l"
+#line 216 "flex_lexer.l"
 TOKEN(PRIMARY)
 	YY_BREAK
 case 120:
 YY_RULE_SETUP
-#line 196 "flex_lexer.l"
+#line 217 "flex_lexer.l"
 TOKEN(RANGE)
 	YY_BREAK
 case 121:
 YY_RULE_SETUP
-#line 197 "flex_lexer.l"
+#line 218 "flex_lexer.l"
 TOKEN(REAL)
 	YY_BREAK
 case 122:
 YY_RULE_SETUP
-#line 198 "flex_lexer.l"
+#line 219 "flex_lexer.l"
 TOKEN(REFERENCES)
 	YY_BREAK
 case 123:
 YY_RULE_SETUP
-#line 199 "flex_lexer.l"
+#line 220 "flex_lexer.l"
 TOKEN(RENAME)
 	YY_BREAK
 case 124:
 YY_RULE_SETUP
-#line 200 "flex_lexer.l"
+#line 221 "flex_lexer.l"
 TOKEN(RESTRICT)
 	YY_BREAK
 case 125:
 YY_RULE_SETUP
-#line 201 "flex_lexer.l"
+#line 222 "flex_lexer.l"
 TOKEN(RIGHT)
 	YY_BREAK
 case 126:
 YY_RULE_SETUP
-#line 202 "flex_lexer.l"
+#line 223 "flex_lexer.l"
 TOKEN(ROLLBACK)
 	YY_BREAK
 case 127:
 YY_RULE_SETUP
-#line 203 "flex_lexer.l"
+#line 224 "flex_lexer.l"
 TOKEN(ROWS)
 	YY_BREAK
 case 128:
 YY_RULE_SETUP
-#line 204 "flex_lexer.l"
+#line 225 "flex_lexer.l"
 TOKEN(SCHEMA)
 	YY_BREAK
 case 129:
 YY_RULE_SETUP
-#line 205 "flex_lexer.l"
+#line 226 "flex_lexer.l"
 TOKEN(SCHEMAS)
 	YY_BREAK
 case 130:
 YY_RULE_SETUP
-#line 206 "flex_lexer.l"
+#line 227 "flex_lexer.l"
 TOKEN(SECOND)
 	YY_BREAK
 case 131:
 YY_RULE_SETUP
-#line 207 "flex_lexer.l"
+#line 228 "flex_lexer.l"
 TOKEN(SECONDS)
 	YY_BREAK
 case 132:
 YY_RULE_SETUP
-#line 208 "flex_lexer.l"
+#line 229 "flex_lexer.l"
 TOKEN(SELECT)
 	YY_BREAK
 case 133:
 YY_RULE_SETUP
-#line 209 "flex_lexer.l"
+#line 230 "flex_lexer.l"
 TOKEN(SET)
 	YY_BREAK
 case 134:
 YY_RULE_SETUP
-#line 210 "flex_lexer.l"
+#line 231 "flex_lexer.l"
 TOKEN(SHARE)
 	YY_BREAK
 case 135:
 YY_RULE_SETUP
-#line 211 "flex_lexer.l"
+#line 232 "flex_lexer.l"
 TOKEN(SHOW)
 	YY_BREAK
 case 136:
 YY_RULE_SETUP
-#line 212 "flex_lexer.l"
+#line 233 "flex_lexer.l"
 TOKEN(SKIP)
 	YY_BREAK
 case 137:
 YY_RULE_SETUP
-#line 213 "flex_lexer.l"
+#line 234 "flex_lexer.l"
 TOKEN(SMALLINT)
 	YY_BREAK
 case 138:
 YY_RULE_SETUP
-#line 214 "flex_lexer.l"
+#line 235 "flex_lexer.l"
 TOKEN(SORTED)
 	YY_BREAK
 case 139:
 YY_RULE_SETUP
-#line 215 "flex_lexer.l"
+#line 236 "flex_lexer.l"
 TOKEN(SPATIAL)
 	YY_BREAK
 case 140:
 YY_RULE_SETUP
-#line 216 "flex_lexer.l"
+#line 237 "flex_lexer.l"
 TOKEN(TABLE)
 	YY_BREAK
 case 141:
 YY_RULE_SETUP
-#line 217 "flex_lexer.l"
+#line 238 "flex_lexer.l"
 TOKEN(TABLES)
 	YY_BREAK
 case 142:
 YY_RULE_SETUP
-#line 218 "flex_lexer.l"
+#line 239 "flex_lexer.l"
 TOKEN(TEMPORARY)
 	YY_BREAK
 case 143:
 YY_RULE_SETUP
-#line 219 "flex_lexer.l"
+#line 240 "flex_lexer.l"
 TOKEN(TEXT)
 	YY_BREAK
 case 144:
 YY_RULE_SETUP
-#line 220 "flex_lexer.l"
+#line 241 "flex_lexer.l"
 TOKEN(THEN)
 	YY_BREAK
 case 145:
 YY_RULE_SETUP
-#line 221 "flex_lexer.l"
+#line 242 "flex_lexer.l"
 TOKEN(TIME)
 	YY_BREAK
 case 146:
 YY_RULE_SETUP
-#line 222 "flex_lexer.l"
+#line 243 "flex_lexer.l"
 TOKEN(TIMESTAMP)
 	YY_BREAK
 case 147:
 YY_RULE_SETUP
-#line 223 "flex_lexer.l"
+#line 244 "flex_lexer.l"
 TOKEN(TO)
 	YY_BREAK
 case 148:
 YY_RULE_SETUP
-#line 224 "flex_lexer.l"
+#line 245 "flex_lexer.l"
 TOKEN(TOP)
 	YY_BREAK
 case 149:
 YY_RULE_SETUP
-#line 225 "flex_lexer.l"
+#line 246 "flex_lexer.l"
 TOKEN(TRANSACTION)
 	YY_BREAK
 case 150:
 YY_RULE_SETUP
-#line 226 "flex_lexer.l"
+#line 247 "flex_lexer.l"
 TOKEN(TRUE)
 	YY_BREAK
 case 151:
 YY_RULE_SETUP
-#line 227 "flex_lexer.l"
+#line 248 "flex_lexer.l"
 TOKEN(TRUNCATE)
 	YY_BREAK
 case 152:
 YY_RULE_SETUP
-#line 228 "flex_lexer.l"
+#line 249 "flex_lexer.l"
 TOKEN(UNBOUNDED)
 	YY_BREAK
 case 153:
 YY_RULE_SETUP
-#line 229 "flex_lexer.l"
+#line 250 "flex_lexer.l"
 TOKEN(UNION)
 	YY_BREAK
 case 154:
 YY_RULE_SETUP
-#line 230 "flex_lexer.l"
+#line 251 "flex_lexer.l"
 TOKEN(UNIQUE)
 	YY_BREAK
 case 155:
 YY_RULE_SETUP
-#line 231 "flex_lexer.l"
+#line 252 "flex_lexer.l"
 TOKEN(UNLOAD)
 	YY_BREAK
 case 156:
 YY_RULE_SETUP
-#line 232 "flex_lexer.l"
+#line 253 "flex_lexer.l"
 TOKEN(UPDATE)
 	YY_BREAK
 case 157:
 YY_RULE_SETUP
-#line 233 "flex_lexer.l"
+#line 254 "flex_lexer.l"
 TOKEN(USING)
 	YY_BREAK
 case 158:
 YY_RULE_SETUP
-#line 234 "flex_lexer.l"
+#line 255 "flex_lexer.l"
 TOKEN(VALUES)
 	YY_BREAK
 case 159:
 YY_RULE_SETUP
-#line 235 "flex_lexer.l"
+#line 256 "flex_lexer.l"
 TOKEN(VARCHAR)
 	YY_BREAK
 case 160:
 YY_RULE_SETUP
-#line 236 "flex_lexer.l"
+#line 257 "flex_lexer.l"
 TOKEN(VIEW)
 	YY_BREAK
 case 161:
 YY_RULE_SETUP
-#line 237 "flex_lexer.l"
+#line 258 "flex_lexer.l"
 TOKEN(VIRTUAL)
 	YY_BREAK
 case 162:
 YY_RULE_SETUP
-#line 238 "flex_lexer.l"
+#line 259 "flex_lexer.l"
 TOKEN(WHEN)
 	YY_BREAK
 case 163:
 YY_RULE_SETUP
-#line 239 "flex_lexer.l"
+#line 260 "flex_lexer.l"
 TOKEN(WHERE)
 	YY_BREAK
 case 164:
 YY_RULE_SETUP
-#line 240 "flex_lexer.l"
+#line 261 "flex_lexer.l"
 TOKEN(WITH)
 	YY_BREAK
 case 165:
 YY_RULE_SETUP
-#line 241 "flex_lexer.l"
+#line 262 "flex_lexer.l"
 TOKEN(YEAR)
 	YY_BREAK
 case 166:
 YY_RULE_SETUP
-#line 242 "flex_lexer.l"
+#line 263 "flex_lexer.l"
 TOKEN(YEARS)
 	YY_BREAK
 case 167:
 /* rule 167 can match eol */
 YY_RULE_SETUP
-#line 244 "flex_lexer.l"
+#line 265 "flex_lexer.l"
 TOKEN(CURRENT_ROW)
 	YY_BREAK
 case 168:
 /* rule 168 can match eol */
 YY_RULE_SETUP
-#line 245 "flex_lexer.l"
+#line 266 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
 /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
 case 169:
 YY_RULE_SETUP
-#line 248 "flex_lexer.l"
+#line 269 "flex_lexer.l"
 TOKEN(EQUALS)
 	YY_BREAK
 case 170:
 YY_RULE_SETUP
-#line 249 "flex_lexer.l"
+#line 270 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 171:
 YY_RULE_SETUP
-#line 250 "flex_lexer.l"
+#line 271 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 172:
 YY_RULE_SETUP
-#line 251 "flex_lexer.l"
+#line 272 "flex_lexer.l"
 TOKEN(LESSEQ)
 	YY_BREAK
 case 173:
 YY_RULE_SETUP
-#line 252 "flex_lexer.l"
+#line 273 "flex_lexer.l"
 TOKEN(GREATEREQ)
 	YY_BREAK
 case 174:
 YY_RULE_SETUP
-#line 253 "flex_lexer.l"
+#line 274 "flex_lexer.l"
 TOKEN(CONCAT)
 	YY_BREAK
 case 175:
 YY_RULE_SETUP
-#line 255 "flex_lexer.l"
+#line 276 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
 case 176:
-#line 258 "flex_lexer.l"
+#line 279 "flex_lexer.l"
 case 177:
 YY_RULE_SETUP
-#line 258 "flex_lexer.l"
+#line 279 "flex_lexer.l"
 {
-  yylval->fval = atof(yytext);
+  yylval->fval = parseFloat(yytext);
   return SQL_FLOATVAL;
 }
 	YY_BREAK
@@ -2511,7 +2532,7 @@ YY_RULE_SETUP
    */
 case 178:
 YY_RULE_SETUP
-#line 268 "flex_lexer.l"
+#line 289 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
@@ -2519,7 +2540,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 179:
 YY_RULE_SETUP
-#line 273 "flex_lexer.l"
+#line 294 "flex_lexer.l"
 {
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
@@ -2532,7 +2553,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 180:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 304 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
@@ -2541,7 +2562,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 181:
 YY_RULE_SETUP
-#line 289 "flex_lexer.l"
+#line 310 "flex_lexer.l"
 {
   yylval->sval = copyText(yytext);
   return SQL_IDENTIFIER;
@@ -2549,28 +2570,28 @@ YY_RULE_SETUP
 	YY_BREAK
 case 182:
 YY_RULE_SETUP
-#line 294 "flex_lexer.l"
+#line 315 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
 case 183:
 YY_RULE_SETUP
-#line 295 "flex_lexer.l"
+#line 316 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
 case 184:
 /* rule 184 can match eol */
 YY_RULE_SETUP
-#line 296 "flex_lexer.l"
+#line 317 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
 case 185:
 YY_RULE_SETUP
-#line 297 "flex_lexer.l"
+#line 318 "flex_lexer.l"
 { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Null character in string\n"); return SQL_INVALID; }
 	YY_BREAK
 case 186:
 YY_RULE_SETUP
-#line 298 "flex_lexer.l"
+#line 319 "flex_lexer.l"
 {
   BEGIN 0;
   // The stream swallows failing allocations.
@@ -2582,20 +2603,20 @@ YY_RULE_SETUP
 }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 307 "flex_lexer.l"
+#line 328 "flex_lexer.l"
 { BEGIN 0; fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return SQL_INVALID; }
 	YY_BREAK
 case 187:
 YY_RULE_SETUP
-#line 309 "flex_lexer.l"
+#line 330 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return SQL_INVALID; }
 	YY_BREAK
 case 188:
 YY_RULE_SETUP
-#line 311 "flex_lexer.l"
+#line 332 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2599 "flex_lexer.cpp"
+#line 2620 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -3751,7 +3772,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 311 "flex_lexer.l"
+#line 332 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 3d0c29d..64764fc 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -729,7 +729,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 311 "flex_lexer.l"
+#line 332 "flex_lexer.l"
 
 
 #line 736 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 225d158..cdf343d 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -14,6 +14,9 @@
 #include "bison_parser.h"
 #include <climits>
 #include <stdio.h>
+#include <cmath>
+#include <limits>
+#include <locale>
 #include <new>
 #include <sstream>
 
@@ -38,6 +41,24 @@ static char* copyText(const char* text) {
   return copy;
 }
 
+// Like atof, but the decimal separator is a point whatever the locale of the process is.
+static double parseFloat(const char* text) {
+  std::istringstream stream(text);
+  stream.imbue(std::locale::classic());
+  double value = 0.0;
+  if (!(stream >> value)) {
+    // The stream swallows failing allocations.
+    if (stream.bad()) {
+      throw std::bad_alloc();
+    }
+    // Streams limit values that are out of range to the largest finite value.
+    if (value == std::numeric_limits<double>::max()) {
+      value = HUGE_VAL;
+    }
+  }
+  return value;
+}
+
 %}
 %x singlequotedstring
 
@@ -256,7 +277,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
 [0-9]+"."[0-9]* |
 "."[0-9]*  {
-  yylval->fval = atof(yytext);
+  yylval->fval = parseFloat(yytext);
   return SQL_FLOATVAL;
 }
 
-- 
2.43.0


From 2244c478efebe1982718896ad5e6197093ae3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 13/14] fix: case-insensitive options and units depend on the
 locale of the process

---
 src/parser/bison_parser.cpp | 1909 ++++++++++++++++++-----------------
 src/parser/bison_parser.h   |    4 +-
 src/parser/bison_parser.y   |   39 +-
 3 files changed, 985 insertions(+), 967 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 0c610aa..542f444 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -103,9 +103,18 @@
     result->setErrorDetails(strdup(msg), llocp->first_line, llocp->first_column);
     return 0;
   }
+
+  // Returns true if the text is the given keyword, regardless of the case. Unlike strcasecmp, this does not depend on
+  // the locale of the process (in Turkish locales, "I" is not the upper case letter of "i").
+  static bool equalsKeyword(const char* text, const char* keyword) {
+    const auto to_lower = [](const char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; };
+    for (; *text && to_lower(*text) == to_lower(*keyword); ++text, ++keyword)
+      ;
+    return !*text && !*keyword;
+  }
   // clang-format off
 
-#line 109 "bison_parser.cpp"
+#line 118 "bison_parser.cpp"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -875,42 +884,42 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   351,   351,   373,   379,   386,   390,   394,   395,   396,
-     398,   399,   400,   401,   402,   403,   404,   405,   406,   407,
-     413,   414,   416,   420,   425,   429,   439,   440,   441,   443,
-     443,   449,   455,   457,   461,   473,   479,   496,   511,   513,
-     514,   515,   517,   531,   535,   545,   549,   573,   581,   594,
-     601,   616,   636,   637,   642,   653,   668,   676,   683,   691,
-     700,   701,   703,   707,   712,   713,   715,   728,   729,   730,
-     731,   732,   733,   734,   738,   739,   740,   741,   742,   743,
-     744,   745,   746,   747,   748,   750,   751,   753,   754,   755,
-     757,   758,   760,   764,   768,   773,   781,   782,   783,   784,
-     786,   787,   788,   790,   798,   804,   810,   816,   822,   823,
-     830,   836,   838,   848,   855,   866,   873,   881,   882,   889,
-     896,   900,   905,   915,   919,   923,   935,   935,   937,   938,
-     947,   948,   950,   964,   976,   981,   985,   989,   994,   995,
-     997,  1007,  1008,  1010,  1012,  1013,  1015,  1017,  1018,  1020,
-    1025,  1027,  1028,  1030,  1031,  1033,  1037,  1042,  1044,  1045,
-    1046,  1048,  1049,  1071,  1072,  1074,  1075,  1076,  1077,  1078,
-    1079,  1084,  1088,  1094,  1095,  1097,  1101,  1106,  1106,  1110,
-    1118,  1119,  1121,  1130,  1130,  1130,  1130,  1130,  1132,  1133,
-    1133,  1133,  1133,  1133,  1133,  1133,  1133,  1134,  1134,  1138,
-    1138,  1140,  1141,  1142,  1143,  1144,  1146,  1146,  1147,  1148,
-    1149,  1150,  1151,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
-    1161,  1162,  1163,  1167,  1168,  1169,  1170,  1172,  1173,  1175,
-    1176,  1178,  1179,  1180,  1181,  1182,  1183,  1184,  1188,  1189,
-    1190,  1191,  1195,  1196,  1198,  1199,  1204,  1205,  1206,  1210,
-    1211,  1212,  1214,  1215,  1216,  1217,  1218,  1220,  1222,  1224,
-    1225,  1226,  1227,  1228,  1229,  1231,  1232,  1233,  1234,  1235,
-    1236,  1238,  1238,  1240,  1242,  1247,  1249,  1250,  1251,  1252,
-    1254,  1254,  1254,  1254,  1254,  1254,  1254,  1256,  1258,  1259,
-    1261,  1262,  1264,  1266,  1268,  1279,  1280,  1291,  1323,  1332,
-    1332,  1339,  1339,  1341,  1341,  1348,  1352,  1357,  1365,  1371,
-    1375,  1380,  1381,  1383,  1383,  1385,  1385,  1387,  1388,  1390,
-    1390,  1396,  1397,  1399,  1403,  1408,  1414,  1421,  1422,  1423,
-    1424,  1426,  1427,  1428,  1434,  1434,  1436,  1438,  1442,  1447,
-    1457,  1464,  1472,  1481,  1482,  1483,  1484,  1485,  1486,  1487,
-    1488,  1489,  1490,  1492,  1498,  1498,  1501,  1505
+       0,   360,   360,   382,   388,   395,   399,   403,   404,   405,
+     407,   408,   409,   410,   411,   412,   413,   414,   415,   416,
+     422,   423,   425,   429,   434,   438,   448,   449,   450,   452,
+     452,   458,   464,   466,   470,   482,   488,   505,   520,   522,
+     523,   524,   526,   540,   544,   554,   558,   582,   590,   603,
+     610,   625,   645,   646,   651,   662,   677,   685,   692,   700,
+     709,   710,   712,   716,   721,   722,   724,   737,   738,   739,
+     740,   741,   742,   743,   747,   748,   749,   750,   751,   752,
+     753,   754,   755,   756,   757,   759,   760,   762,   763,   764,
+     766,   767,   769,   773,   777,   782,   790,   791,   792,   793,
+     795,   796,   797,   799,   807,   813,   819,   825,   831,   832,
+     839,   845,   847,   857,   864,   875,   882,   890,   891,   898,
+     905,   909,   914,   924,   928,   932,   944,   944,   946,   947,
+     956,   957,   959,   973,   985,   990,   994,   998,  1003,  1004,
+    1006,  1016,  1017,  1019,  1021,  1022,  1024,  1026,  1027,  1029,
+    1034,  1036,  1037,  1039,  1040,  1042,  1046,  1051,  1053,  1054,
+    1055,  1057,  1058,  1080,  1081,  1083,  1084,  1085,  1086,  1087,
+    1088,  1093,  1097,  1103,  1104,  1106,  1110,  1115,  1115,  1119,
+    1127,  1128,  1130,  1139,  1139,  1139,  1139,  1139,  1141,  1142,
+    1142,  1142,  1142,  1142,  1142,  1142,  1142,  1143,  1143,  1147,
+    1147,  1149,  1150,  1151,  1152,  1153,  1155,  1155,  1156,  1157,
+    1158,  1159,  1160,  1161,  1162,  1163,  1164,  1166,  1167,  1169,
+    1170,  1171,  1172,  1176,  1177,  1178,  1179,  1181,  1182,  1184,
+    1185,  1187,  1188,  1189,  1190,  1191,  1192,  1193,  1197,  1198,
+    1199,  1200,  1204,  1205,  1207,  1208,  1213,  1214,  1215,  1219,
+    1220,  1221,  1223,  1224,  1225,  1226,  1227,  1229,  1231,  1233,
+    1234,  1235,  1236,  1237,  1238,  1240,  1241,  1242,  1243,  1244,
+    1245,  1247,  1247,  1249,  1251,  1256,  1258,  1259,  1260,  1261,
+    1263,  1263,  1263,  1263,  1263,  1263,  1263,  1265,  1267,  1268,
+    1270,  1271,  1273,  1275,  1277,  1288,  1289,  1300,  1332,  1341,
+    1341,  1348,  1348,  1350,  1350,  1357,  1361,  1366,  1374,  1380,
+    1384,  1389,  1390,  1392,  1392,  1394,  1394,  1396,  1397,  1399,
+    1399,  1405,  1406,  1408,  1412,  1417,  1423,  1430,  1431,  1432,
+    1433,  1435,  1436,  1437,  1443,  1443,  1445,  1447,  1451,  1456,
+    1466,  1473,  1481,  1490,  1491,  1492,  1493,  1494,  1495,  1496,
+    1497,  1498,  1499,  1501,  1507,  1507,  1510,  1514
 };
 #endif
 
@@ -6147,31 +6156,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 199 "bison_parser.y"
+#line 208 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6153 "bison_parser.cpp"
+#line 6162 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 199 "bison_parser.y"
+#line 208 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6159 "bison_parser.cpp"
+#line 6168 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6165 "bison_parser.cpp"
+#line 6174 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6171 "bison_parser.cpp"
+#line 6180 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -6180,23 +6189,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 6184 "bison_parser.cpp"
+#line 6193 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 6190 "bison_parser.cpp"
+#line 6199 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 6196 "bison_parser.cpp"
+#line 6205 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6205,11 +6214,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6209 "bison_parser.cpp"
+#line 6218 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6218,104 +6227,104 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6222 "bison_parser.cpp"
+#line 6231 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6228 "bison_parser.cpp"
+#line 6237 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 6234 "bison_parser.cpp"
+#line 6243 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 6240 "bison_parser.cpp"
+#line 6249 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 199 "bison_parser.y"
+#line 208 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6246 "bison_parser.cpp"
+#line 6255 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 6252 "bison_parser.cpp"
+#line 6261 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 6258 "bison_parser.cpp"
+#line 6267 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6264 "bison_parser.cpp"
+#line 6273 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 199 "bison_parser.y"
+#line 208 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6270 "bison_parser.cpp"
+#line 6279 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 6276 "bison_parser.cpp"
+#line 6285 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 6282 "bison_parser.cpp"
+#line 6291 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 208 "bison_parser.y"
+#line 217 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 6291 "bison_parser.cpp"
+#line 6300 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 6297 "bison_parser.cpp"
+#line 6306 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 6303 "bison_parser.cpp"
+#line 6312 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 6309 "bison_parser.cpp"
+#line 6318 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6315 "bison_parser.cpp"
+#line 6324 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -6324,119 +6333,119 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 6328 "bison_parser.cpp"
+#line 6337 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 6334 "bison_parser.cpp"
+#line 6343 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 6340 "bison_parser.cpp"
+#line 6349 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6346 "bison_parser.cpp"
+#line 6355 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6352 "bison_parser.cpp"
+#line 6361 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 6358 "bison_parser.cpp"
+#line 6367 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).column_constraints_t)); }
-#line 6364 "bison_parser.cpp"
+#line 6373 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).column_constraints_t)); }
-#line 6370 "bison_parser.cpp"
+#line 6379 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6376 "bison_parser.cpp"
+#line 6385 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 6382 "bison_parser.cpp"
+#line 6391 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 6388 "bison_parser.cpp"
+#line 6397 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 6394 "bison_parser.cpp"
+#line 6403 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6400 "bison_parser.cpp"
+#line 6409 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 6406 "bison_parser.cpp"
+#line 6415 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 6412 "bison_parser.cpp"
+#line 6421 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 6418 "bison_parser.cpp"
+#line 6427 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 6424 "bison_parser.cpp"
+#line 6433 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 6430 "bison_parser.cpp"
+#line 6439 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 6436 "bison_parser.cpp"
+#line 6445 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 191 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -6445,17 +6454,17 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 6449 "bison_parser.cpp"
+#line 6458 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 6455 "bison_parser.cpp"
+#line 6464 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).update_vec)) {
     for (auto ptr : *(((*yyvaluep).update_vec))) {
@@ -6464,77 +6473,77 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 6468 "bison_parser.cpp"
+#line 6477 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).update_t)); }
-#line 6474 "bison_parser.cpp"
+#line 6483 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6480 "bison_parser.cpp"
+#line 6489 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6486 "bison_parser.cpp"
+#line 6495 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6492 "bison_parser.cpp"
+#line 6501 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6498 "bison_parser.cpp"
+#line 6507 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6504 "bison_parser.cpp"
+#line 6513 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 6510 "bison_parser.cpp"
+#line 6519 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 6516 "bison_parser.cpp"
+#line 6525 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6522 "bison_parser.cpp"
+#line 6531 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 6528 "bison_parser.cpp"
+#line 6537 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6534 "bison_parser.cpp"
+#line 6543 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6543,41 +6552,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6547 "bison_parser.cpp"
+#line 6556 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6553 "bison_parser.cpp"
+#line 6562 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6559 "bison_parser.cpp"
+#line 6568 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6565 "bison_parser.cpp"
+#line 6574 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 6571 "bison_parser.cpp"
+#line 6580 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6577 "bison_parser.cpp"
+#line 6586 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -6586,11 +6595,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 6590 "bison_parser.cpp"
+#line 6599 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -6599,41 +6608,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 6603 "bison_parser.cpp"
+#line 6612 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 6609 "bison_parser.cpp"
+#line 6618 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6615 "bison_parser.cpp"
+#line 6624 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6621 "bison_parser.cpp"
+#line 6630 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 6627 "bison_parser.cpp"
+#line 6636 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 6633 "bison_parser.cpp"
+#line 6642 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6642,11 +6651,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6646 "bison_parser.cpp"
+#line 6655 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6655,11 +6664,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6659 "bison_parser.cpp"
+#line 6668 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6668,107 +6677,107 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6672 "bison_parser.cpp"
+#line 6681 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6678 "bison_parser.cpp"
+#line 6687 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6684 "bison_parser.cpp"
+#line 6693 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6690 "bison_parser.cpp"
+#line 6699 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6696 "bison_parser.cpp"
+#line 6705 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6702 "bison_parser.cpp"
+#line 6711 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6708 "bison_parser.cpp"
+#line 6717 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6714 "bison_parser.cpp"
+#line 6723 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6720 "bison_parser.cpp"
+#line 6729 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6726 "bison_parser.cpp"
+#line 6735 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6732 "bison_parser.cpp"
+#line 6741 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6738 "bison_parser.cpp"
+#line 6747 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6744 "bison_parser.cpp"
+#line 6753 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6750 "bison_parser.cpp"
+#line 6759 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6756 "bison_parser.cpp"
+#line 6765 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6762 "bison_parser.cpp"
+#line 6771 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 6768 "bison_parser.cpp"
+#line 6777 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -6777,155 +6786,155 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 6781 "bison_parser.cpp"
+#line 6790 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 6787 "bison_parser.cpp"
+#line 6796 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6793 "bison_parser.cpp"
+#line 6802 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 6799 "bison_parser.cpp"
+#line 6808 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6805 "bison_parser.cpp"
+#line 6814 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6811 "bison_parser.cpp"
+#line 6820 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6817 "bison_parser.cpp"
+#line 6826 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6823 "bison_parser.cpp"
+#line 6832 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 6829 "bison_parser.cpp"
+#line 6838 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6835 "bison_parser.cpp"
+#line 6844 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6841 "bison_parser.cpp"
+#line 6850 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6847 "bison_parser.cpp"
+#line 6856 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6853 "bison_parser.cpp"
+#line 6862 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6859 "bison_parser.cpp"
+#line 6868 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6865 "bison_parser.cpp"
+#line 6874 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6871 "bison_parser.cpp"
+#line 6880 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6877 "bison_parser.cpp"
+#line 6886 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6883 "bison_parser.cpp"
+#line 6892 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6889 "bison_parser.cpp"
+#line 6898 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6895 "bison_parser.cpp"
+#line 6904 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6901 "bison_parser.cpp"
+#line 6910 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 6907 "bison_parser.cpp"
+#line 6916 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6913 "bison_parser.cpp"
+#line 6922 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6919 "bison_parser.cpp"
+#line 6928 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6925 "bison_parser.cpp"
+#line 6934 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -6934,62 +6943,62 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 6938 "bison_parser.cpp"
+#line 6947 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6944 "bison_parser.cpp"
+#line 6953 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 6950 "bison_parser.cpp"
+#line 6959 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 187 "bison_parser.y"
+#line 196 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 6959 "bison_parser.cpp"
+#line 6968 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 199 "bison_parser.y"
+#line 208 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 6965 "bison_parser.cpp"
+#line 6974 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6971 "bison_parser.cpp"
+#line 6980 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6977 "bison_parser.cpp"
+#line 6986 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6983 "bison_parser.cpp"
+#line 6992 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 6989 "bison_parser.cpp"
+#line 6998 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -6998,11 +7007,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 7002 "bison_parser.cpp"
+#line 7011 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -7011,29 +7020,29 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 7015 "bison_parser.cpp"
+#line 7024 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).locking_t)); }
-#line 7021 "bison_parser.cpp"
+#line 7030 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 7027 "bison_parser.cpp"
+#line 7036 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 7033 "bison_parser.cpp"
+#line 7042 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -7042,11 +7051,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 7046 "bison_parser.cpp"
+#line 7055 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -7055,11 +7064,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 7059 "bison_parser.cpp"
+#line 7068 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 200 "bison_parser.y"
+#line 209 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -7068,35 +7077,35 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 7072 "bison_parser.cpp"
+#line 7081 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 7078 "bison_parser.cpp"
+#line 7087 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 7084 "bison_parser.cpp"
+#line 7093 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 186 "bison_parser.y"
+#line 195 "bison_parser.y"
             { }
-#line 7090 "bison_parser.cpp"
+#line 7099 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 212 "bison_parser.y"
+#line 221 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 7096 "bison_parser.cpp"
+#line 7105 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 191 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -7105,7 +7114,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 7109 "bison_parser.cpp"
+#line 7118 "bison_parser.cpp"
         break;
 
       default:
@@ -7202,7 +7211,7 @@ YYLTYPE yylloc = yyloc_default;
 
 
 /* User initialization code.  */
-#line 86 "bison_parser.y"
+#line 95 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -7213,7 +7222,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 7217 "bison_parser.cpp"
+#line 7226 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -7424,7 +7433,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 351 "bison_parser.y"
+#line 360 "bison_parser.y"
                                      {
   // Add everything or nothing, even if there is no memory left.
   result->reserve((yyvsp[-1].stmt_vec)->size(), yyloc.param_list.size());
@@ -7445,236 +7454,236 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 7449 "bison_parser.cpp"
+#line 7458 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 373 "bison_parser.y"
+#line 382 "bison_parser.y"
                            {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 7460 "bison_parser.cpp"
+#line 7469 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 379 "bison_parser.y"
+#line 388 "bison_parser.y"
                                {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 7471 "bison_parser.cpp"
+#line 7480 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 386 "bison_parser.y"
+#line 395 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 7480 "bison_parser.cpp"
+#line 7489 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 390 "bison_parser.y"
+#line 399 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 7489 "bison_parser.cpp"
+#line 7498 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 394 "bison_parser.y"
+#line 403 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 7495 "bison_parser.cpp"
+#line 7504 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 395 "bison_parser.y"
+#line 404 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 7501 "bison_parser.cpp"
+#line 7510 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 396 "bison_parser.y"
+#line 405 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 7507 "bison_parser.cpp"
+#line 7516 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 398 "bison_parser.y"
+#line 407 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 7513 "bison_parser.cpp"
+#line 7522 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 399 "bison_parser.y"
+#line 408 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 7519 "bison_parser.cpp"
+#line 7528 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 400 "bison_parser.y"
+#line 409 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 7525 "bison_parser.cpp"
+#line 7534 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 401 "bison_parser.y"
+#line 410 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 7531 "bison_parser.cpp"
+#line 7540 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 402 "bison_parser.y"
+#line 411 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 7537 "bison_parser.cpp"
+#line 7546 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 403 "bison_parser.y"
+#line 412 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 7543 "bison_parser.cpp"
+#line 7552 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 404 "bison_parser.y"
+#line 413 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 7549 "bison_parser.cpp"
+#line 7558 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 405 "bison_parser.y"
+#line 414 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 7555 "bison_parser.cpp"
+#line 7564 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 406 "bison_parser.y"
+#line 415 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 7561 "bison_parser.cpp"
+#line 7570 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 407 "bison_parser.y"
+#line 416 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 7567 "bison_parser.cpp"
+#line 7576 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 413 "bison_parser.y"
+#line 422 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 7573 "bison_parser.cpp"
+#line 7582 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 414 "bison_parser.y"
+#line 423 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 7579 "bison_parser.cpp"
+#line 7588 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 416 "bison_parser.y"
+#line 425 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 7588 "bison_parser.cpp"
+#line 7597 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 420 "bison_parser.y"
+#line 429 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 7597 "bison_parser.cpp"
+#line 7606 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 425 "bison_parser.y"
+#line 434 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 7606 "bison_parser.cpp"
+#line 7615 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 429 "bison_parser.y"
+#line 438 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 7616 "bison_parser.cpp"
+#line 7625 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 439 "bison_parser.y"
+#line 448 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 7622 "bison_parser.cpp"
+#line 7631 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 440 "bison_parser.y"
+#line 449 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 7628 "bison_parser.cpp"
+#line 7637 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 441 "bison_parser.y"
+#line 450 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 7634 "bison_parser.cpp"
+#line 7643 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 449 "bison_parser.y"
+#line 458 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 7644 "bison_parser.cpp"
+#line 7653 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 457 "bison_parser.y"
+#line 466 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 7653 "bison_parser.cpp"
+#line 7662 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 461 "bison_parser.y"
+#line 470 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 7663 "bison_parser.cpp"
+#line 7672 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 473 "bison_parser.y"
+#line 482 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 7674 "bison_parser.cpp"
+#line 7683 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 479 "bison_parser.y"
+#line 488 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -7691,17 +7700,17 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 7695 "bison_parser.cpp"
+#line 7704 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 496 "bison_parser.y"
+#line 505 "bison_parser.y"
                        {
-  if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
+  if (equalsKeyword((yyvsp[0].sval), "csv")) {
     (yyval.import_type_t) = kImportCSV;
-  } else if (strcasecmp((yyvsp[0].sval), "tbl") == 0) {
+  } else if (equalsKeyword((yyvsp[0].sval), "tbl")) {
     (yyval.import_type_t) = kImportTbl;
-  } else if (strcasecmp((yyvsp[0].sval), "binary") == 0 || strcasecmp((yyvsp[0].sval), "bin") == 0) {
+  } else if (equalsKeyword((yyvsp[0].sval), "binary") || equalsKeyword((yyvsp[0].sval), "bin")) {
     (yyval.import_type_t) = kImportBinary;
   } else {
     free((yyvsp[0].sval));
@@ -7710,35 +7719,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 7714 "bison_parser.cpp"
+#line 7723 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 511 "bison_parser.y"
+#line 520 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 7720 "bison_parser.cpp"
+#line 7729 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 513 "bison_parser.y"
+#line 522 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 7726 "bison_parser.cpp"
+#line 7735 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 514 "bison_parser.y"
+#line 523 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 7732 "bison_parser.cpp"
+#line 7741 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 515 "bison_parser.y"
+#line 524 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 7738 "bison_parser.cpp"
+#line 7747 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 517 "bison_parser.y"
+#line 526 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -7753,20 +7762,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 7757 "bison_parser.cpp"
+#line 7766 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 531 "bison_parser.y"
+#line 540 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 7766 "bison_parser.cpp"
+#line 7775 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 535 "bison_parser.y"
+#line 544 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -7777,20 +7786,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 7781 "bison_parser.cpp"
+#line 7790 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 545 "bison_parser.y"
+#line 554 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 7790 "bison_parser.cpp"
+#line 7799 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 549 "bison_parser.y"
+#line 558 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -7815,11 +7824,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 7819 "bison_parser.cpp"
+#line 7828 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 573 "bison_parser.y"
+#line 582 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -7827,15 +7836,15 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 7831 "bison_parser.cpp"
+#line 7840 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 581 "bison_parser.y"
+#line 590 "bison_parser.y"
                                {
-  if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
+  if (equalsKeyword((yyvsp[-1].sval), "DELIMITER")) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
-  } else if (strcasecmp((yyvsp[-1].sval), "QUOTE") == 0) {
+  } else if (equalsKeyword((yyvsp[-1].sval), "QUOTE")) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Quote, (yyvsp[0].sval));
   } else {
     free((yyvsp[-1].sval));
@@ -7845,17 +7854,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 7849 "bison_parser.cpp"
+#line 7858 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 594 "bison_parser.y"
+#line 603 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 7855 "bison_parser.cpp"
+#line 7864 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 601 "bison_parser.y"
+#line 610 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -7871,11 +7880,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 7875 "bison_parser.cpp"
+#line 7884 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 616 "bison_parser.y"
+#line 625 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -7890,43 +7899,43 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 7894 "bison_parser.cpp"
+#line 7903 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 636 "bison_parser.y"
+#line 645 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 7900 "bison_parser.cpp"
+#line 7909 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 637 "bison_parser.y"
+#line 646 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 7910 "bison_parser.cpp"
+#line 7919 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 642 "bison_parser.y"
+#line 651 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 7920 "bison_parser.cpp"
+#line 7929 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 653 "bison_parser.y"
+#line 662 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
   (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
-  if (strcasecmp((yyvsp[-2].sval), "tbl") != 0) {
+  if (!equalsKeyword((yyvsp[-2].sval), "tbl")) {
     free((yyvsp[-2].sval));
     free((yyvsp[0].sval));
     delete (yyval.create_stmt);
@@ -7936,11 +7945,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 7940 "bison_parser.cpp"
+#line 7949 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 668 "bison_parser.y"
+#line 677 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -7949,11 +7958,11 @@ yyreduce:
   (yyval.create_stmt)->setColumnDefsAndConstraints((yyvsp[-1].table_element_vec));
   delete (yyvsp[-1].table_element_vec);
 }
-#line 7953 "bison_parser.cpp"
+#line 7962 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 676 "bison_parser.y"
+#line 685 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -7961,11 +7970,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 7965 "bison_parser.cpp"
+#line 7974 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 683 "bison_parser.y"
+#line 692 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -7974,11 +7983,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 7978 "bison_parser.cpp"
+#line 7987 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 691 "bison_parser.y"
+#line 700 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -7987,53 +7996,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 7991 "bison_parser.cpp"
+#line 8000 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 700 "bison_parser.y"
+#line 709 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 7997 "bison_parser.cpp"
+#line 8006 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 701 "bison_parser.y"
+#line 710 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8003 "bison_parser.cpp"
+#line 8012 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 703 "bison_parser.y"
+#line 712 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 8012 "bison_parser.cpp"
+#line 8021 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 707 "bison_parser.y"
+#line 716 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 8021 "bison_parser.cpp"
+#line 8030 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 712 "bison_parser.y"
+#line 721 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 8027 "bison_parser.cpp"
+#line 8036 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 713 "bison_parser.y"
+#line 722 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 8033 "bison_parser.cpp"
+#line 8042 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 715 "bison_parser.y"
+#line 724 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   // The column definition owns the constraints and references.
@@ -8046,192 +8055,192 @@ yyreduce:
     YYERROR;
   }
 }
-#line 8050 "bison_parser.cpp"
+#line 8059 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 728 "bison_parser.y"
+#line 737 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 8056 "bison_parser.cpp"
+#line 8065 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 729 "bison_parser.y"
+#line 738 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 8062 "bison_parser.cpp"
+#line 8071 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 730 "bison_parser.y"
+#line 739 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 8068 "bison_parser.cpp"
+#line 8077 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 731 "bison_parser.y"
+#line 740 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 8074 "bison_parser.cpp"
+#line 8083 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 732 "bison_parser.y"
+#line 741 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 8080 "bison_parser.cpp"
+#line 8089 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 733 "bison_parser.y"
+#line 742 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 8086 "bison_parser.cpp"
+#line 8095 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 734 "bison_parser.y"
+#line 743 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 8095 "bison_parser.cpp"
+#line 8104 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 738 "bison_parser.y"
+#line 747 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 8101 "bison_parser.cpp"
+#line 8110 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 739 "bison_parser.y"
+#line 748 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 8107 "bison_parser.cpp"
+#line 8116 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 740 "bison_parser.y"
+#line 749 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 8113 "bison_parser.cpp"
+#line 8122 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 741 "bison_parser.y"
+#line 750 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 8119 "bison_parser.cpp"
+#line 8128 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 742 "bison_parser.y"
+#line 751 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 8125 "bison_parser.cpp"
+#line 8134 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 743 "bison_parser.y"
+#line 752 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 8131 "bison_parser.cpp"
+#line 8140 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 744 "bison_parser.y"
+#line 753 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 8137 "bison_parser.cpp"
+#line 8146 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 745 "bison_parser.y"
+#line 754 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 8143 "bison_parser.cpp"
+#line 8152 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 746 "bison_parser.y"
+#line 755 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 8149 "bison_parser.cpp"
+#line 8158 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 747 "bison_parser.y"
+#line 756 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 8155 "bison_parser.cpp"
+#line 8164 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 748 "bison_parser.y"
+#line 757 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 8161 "bison_parser.cpp"
+#line 8170 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 750 "bison_parser.y"
+#line 759 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 8167 "bison_parser.cpp"
+#line 8176 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 751 "bison_parser.y"
+#line 760 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 8173 "bison_parser.cpp"
+#line 8182 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 753 "bison_parser.y"
+#line 762 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 8179 "bison_parser.cpp"
+#line 8188 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 754 "bison_parser.y"
+#line 763 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 8185 "bison_parser.cpp"
+#line 8194 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 755 "bison_parser.y"
+#line 764 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 8191 "bison_parser.cpp"
+#line 8200 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 757 "bison_parser.y"
+#line 766 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 8197 "bison_parser.cpp"
+#line 8206 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 758 "bison_parser.y"
+#line 767 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 8203 "bison_parser.cpp"
+#line 8212 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 760 "bison_parser.y"
+#line 769 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 8212 "bison_parser.cpp"
+#line 8221 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 764 "bison_parser.y"
+#line 773 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 8221 "bison_parser.cpp"
+#line 8230 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 768 "bison_parser.y"
+#line 777 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 8231 "bison_parser.cpp"
+#line 8240 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 773 "bison_parser.y"
+#line 782 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -8239,159 +8248,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 8243 "bison_parser.cpp"
+#line 8252 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 781 "bison_parser.y"
+#line 790 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 8249 "bison_parser.cpp"
+#line 8258 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 782 "bison_parser.y"
+#line 791 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 8255 "bison_parser.cpp"
+#line 8264 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 783 "bison_parser.y"
+#line 792 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 8261 "bison_parser.cpp"
+#line 8270 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 784 "bison_parser.y"
+#line 793 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 8267 "bison_parser.cpp"
+#line 8276 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 786 "bison_parser.y"
+#line 795 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 8273 "bison_parser.cpp"
+#line 8282 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 787 "bison_parser.y"
+#line 796 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 8279 "bison_parser.cpp"
+#line 8288 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 788 "bison_parser.y"
+#line 797 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 8285 "bison_parser.cpp"
+#line 8294 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 790 "bison_parser.y"
+#line 799 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 8291 "bison_parser.cpp"
+#line 8300 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 798 "bison_parser.y"
+#line 807 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 8302 "bison_parser.cpp"
+#line 8311 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 804 "bison_parser.y"
+#line 813 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 8313 "bison_parser.cpp"
+#line 8322 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 810 "bison_parser.y"
+#line 819 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 8323 "bison_parser.cpp"
+#line 8332 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 816 "bison_parser.y"
+#line 825 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 8333 "bison_parser.cpp"
+#line 8342 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 822 "bison_parser.y"
+#line 831 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 8339 "bison_parser.cpp"
+#line 8348 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 823 "bison_parser.y"
+#line 832 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8345 "bison_parser.cpp"
+#line 8354 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 830 "bison_parser.y"
+#line 839 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 8355 "bison_parser.cpp"
+#line 8364 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 836 "bison_parser.y"
+#line 845 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 8361 "bison_parser.cpp"
+#line 8370 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 838 "bison_parser.y"
+#line 847 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 8370 "bison_parser.cpp"
+#line 8379 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 848 "bison_parser.y"
+#line 857 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 8381 "bison_parser.cpp"
+#line 8390 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 855 "bison_parser.y"
+#line 864 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 8391 "bison_parser.cpp"
+#line 8400 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 866 "bison_parser.y"
+#line 875 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -8399,11 +8408,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 8403 "bison_parser.cpp"
+#line 8412 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 873 "bison_parser.y"
+#line 882 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -8411,80 +8420,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 8415 "bison_parser.cpp"
+#line 8424 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 881 "bison_parser.y"
+#line 890 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 8421 "bison_parser.cpp"
+#line 8430 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 882 "bison_parser.y"
+#line 891 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 8427 "bison_parser.cpp"
+#line 8436 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 889 "bison_parser.y"
+#line 898 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 8438 "bison_parser.cpp"
+#line 8447 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 896 "bison_parser.y"
+#line 905 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 8447 "bison_parser.cpp"
+#line 8456 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 900 "bison_parser.y"
+#line 909 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 8456 "bison_parser.cpp"
+#line 8465 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 905 "bison_parser.y"
+#line 914 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 8466 "bison_parser.cpp"
+#line 8475 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 915 "bison_parser.y"
+#line 924 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 8475 "bison_parser.cpp"
+#line 8484 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 919 "bison_parser.y"
+#line 928 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 8484 "bison_parser.cpp"
+#line 8493 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 923 "bison_parser.y"
+#line 932 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8496,17 +8505,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 8500 "bison_parser.cpp"
+#line 8509 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 937 "bison_parser.y"
+#line 946 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 8506 "bison_parser.cpp"
+#line 8515 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 938 "bison_parser.y"
+#line 947 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8515,23 +8524,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 8519 "bison_parser.cpp"
+#line 8528 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 947 "bison_parser.y"
+#line 956 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 8525 "bison_parser.cpp"
+#line 8534 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 948 "bison_parser.y"
+#line 957 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 8531 "bison_parser.cpp"
+#line 8540 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 950 "bison_parser.y"
+#line 959 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -8546,11 +8555,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 8550 "bison_parser.cpp"
+#line 8559 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 964 "bison_parser.y"
+#line 973 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -8562,59 +8571,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 8566 "bison_parser.cpp"
+#line 8575 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 976 "bison_parser.y"
+#line 985 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 8575 "bison_parser.cpp"
+#line 8584 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 981 "bison_parser.y"
+#line 990 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 8584 "bison_parser.cpp"
+#line 8593 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 985 "bison_parser.y"
+#line 994 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 8593 "bison_parser.cpp"
+#line 8602 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 989 "bison_parser.y"
+#line 998 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 8602 "bison_parser.cpp"
+#line 8611 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 994 "bison_parser.y"
+#line 1003 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 8608 "bison_parser.cpp"
+#line 8617 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 995 "bison_parser.y"
+#line 1004 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8614 "bison_parser.cpp"
+#line 8623 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 997 "bison_parser.y"
+#line 1006 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -8624,147 +8633,147 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 8628 "bison_parser.cpp"
+#line 8637 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1007 "bison_parser.y"
+#line 1016 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 8634 "bison_parser.cpp"
+#line 8643 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1008 "bison_parser.y"
+#line 1017 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 8640 "bison_parser.cpp"
+#line 8649 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1012 "bison_parser.y"
+#line 1021 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 8646 "bison_parser.cpp"
+#line 8655 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1013 "bison_parser.y"
+#line 1022 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 8652 "bison_parser.cpp"
+#line 8661 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1015 "bison_parser.y"
+#line 1024 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 8658 "bison_parser.cpp"
+#line 8667 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1017 "bison_parser.y"
+#line 1026 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 8664 "bison_parser.cpp"
+#line 8673 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1018 "bison_parser.y"
+#line 1027 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 8670 "bison_parser.cpp"
+#line 8679 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1020 "bison_parser.y"
+#line 1029 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 8680 "bison_parser.cpp"
+#line 8689 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1025 "bison_parser.y"
+#line 1034 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 8686 "bison_parser.cpp"
+#line 8695 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1027 "bison_parser.y"
+#line 1036 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 8692 "bison_parser.cpp"
+#line 8701 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1028 "bison_parser.y"
+#line 1037 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 8698 "bison_parser.cpp"
+#line 8707 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1030 "bison_parser.y"
+#line 1039 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 8704 "bison_parser.cpp"
+#line 8713 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1031 "bison_parser.y"
+#line 1040 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 8710 "bison_parser.cpp"
+#line 8719 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1033 "bison_parser.y"
+#line 1042 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 8719 "bison_parser.cpp"
+#line 8728 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1037 "bison_parser.y"
+#line 1046 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 8728 "bison_parser.cpp"
+#line 8737 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1042 "bison_parser.y"
+#line 1051 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 8734 "bison_parser.cpp"
+#line 8743 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1044 "bison_parser.y"
+#line 1053 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 8740 "bison_parser.cpp"
+#line 8749 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1045 "bison_parser.y"
+#line 1054 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 8746 "bison_parser.cpp"
+#line 8755 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1046 "bison_parser.y"
+#line 1055 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 8752 "bison_parser.cpp"
+#line 8761 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1048 "bison_parser.y"
+#line 1057 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 8758 "bison_parser.cpp"
+#line 8767 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1049 "bison_parser.y"
+#line 1058 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
-  if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
-    if (strcasecmp((yyvsp[0].sval), "first") == 0) {
+  if (equalsKeyword((yyvsp[-1].sval), "nulls")) {
+    if (equalsKeyword((yyvsp[0].sval), "first")) {
       null_ordering = NullOrdering::First;
-    } else if (strcasecmp((yyvsp[0].sval), "last") == 0) {
+    } else if (equalsKeyword((yyvsp[0].sval), "last")) {
       null_ordering = NullOrdering::Last;
     }
   }
@@ -8778,115 +8787,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 8782 "bison_parser.cpp"
+#line 8791 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1071 "bison_parser.y"
+#line 1080 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 8788 "bison_parser.cpp"
+#line 8797 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1072 "bison_parser.y"
+#line 1081 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 8794 "bison_parser.cpp"
+#line 8803 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1074 "bison_parser.y"
+#line 1083 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 8800 "bison_parser.cpp"
+#line 8809 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1075 "bison_parser.y"
+#line 1084 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 8806 "bison_parser.cpp"
+#line 8815 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1076 "bison_parser.y"
+#line 1085 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 8812 "bison_parser.cpp"
+#line 8821 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1077 "bison_parser.y"
+#line 1086 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 8818 "bison_parser.cpp"
+#line 8827 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1078 "bison_parser.y"
+#line 1087 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 8824 "bison_parser.cpp"
+#line 8833 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1079 "bison_parser.y"
+#line 1088 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 8830 "bison_parser.cpp"
+#line 8839 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1084 "bison_parser.y"
+#line 1093 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 8839 "bison_parser.cpp"
+#line 8848 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1088 "bison_parser.y"
+#line 1097 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 8848 "bison_parser.cpp"
+#line 8857 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1094 "bison_parser.y"
+#line 1103 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 8854 "bison_parser.cpp"
+#line 8863 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1095 "bison_parser.y"
+#line 1104 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 8860 "bison_parser.cpp"
+#line 8869 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1097 "bison_parser.y"
+#line 1106 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 8869 "bison_parser.cpp"
+#line 8878 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1101 "bison_parser.y"
+#line 1110 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 8878 "bison_parser.cpp"
+#line 8887 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1106 "bison_parser.y"
+#line 1115 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 8886 "bison_parser.cpp"
+#line 8895 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1110 "bison_parser.y"
+#line 1119 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -8895,23 +8904,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 8899 "bison_parser.cpp"
+#line 8908 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1118 "bison_parser.y"
+#line 1127 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8905 "bison_parser.cpp"
+#line 8914 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1119 "bison_parser.y"
+#line 1128 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8911 "bison_parser.cpp"
+#line 8920 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1121 "bison_parser.y"
+#line 1130 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -8920,522 +8929,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 8924 "bison_parser.cpp"
+#line 8933 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1132 "bison_parser.y"
+#line 1141 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 8930 "bison_parser.cpp"
+#line 8939 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1134 "bison_parser.y"
+#line 1143 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 8938 "bison_parser.cpp"
+#line 8947 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1140 "bison_parser.y"
+#line 1149 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 8944 "bison_parser.cpp"
+#line 8953 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1141 "bison_parser.y"
+#line 1150 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 8950 "bison_parser.cpp"
+#line 8959 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1142 "bison_parser.y"
+#line 1151 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 8956 "bison_parser.cpp"
+#line 8965 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1143 "bison_parser.y"
+#line 1152 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 8962 "bison_parser.cpp"
+#line 8971 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1144 "bison_parser.y"
+#line 1153 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 8968 "bison_parser.cpp"
+#line 8977 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1146 "bison_parser.y"
+#line 1155 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 8974 "bison_parser.cpp"
+#line 8983 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1147 "bison_parser.y"
+#line 1156 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 8980 "bison_parser.cpp"
+#line 8989 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1148 "bison_parser.y"
+#line 1157 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 8986 "bison_parser.cpp"
+#line 8995 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1149 "bison_parser.y"
+#line 1158 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 8992 "bison_parser.cpp"
+#line 9001 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1150 "bison_parser.y"
+#line 1159 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 8998 "bison_parser.cpp"
+#line 9007 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1151 "bison_parser.y"
+#line 1160 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 9004 "bison_parser.cpp"
+#line 9013 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1152 "bison_parser.y"
+#line 1161 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 9010 "bison_parser.cpp"
+#line 9019 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1153 "bison_parser.y"
+#line 1162 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 9016 "bison_parser.cpp"
+#line 9025 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1154 "bison_parser.y"
+#line 1163 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 9022 "bison_parser.cpp"
+#line 9031 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1155 "bison_parser.y"
+#line 1164 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 9028 "bison_parser.cpp"
+#line 9037 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1157 "bison_parser.y"
+#line 1166 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 9034 "bison_parser.cpp"
+#line 9043 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1158 "bison_parser.y"
+#line 1167 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 9040 "bison_parser.cpp"
+#line 9049 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1160 "bison_parser.y"
+#line 1169 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 9046 "bison_parser.cpp"
+#line 9055 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1161 "bison_parser.y"
+#line 1170 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 9052 "bison_parser.cpp"
+#line 9061 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1162 "bison_parser.y"
+#line 1171 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 9058 "bison_parser.cpp"
+#line 9067 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1163 "bison_parser.y"
+#line 1172 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 9064 "bison_parser.cpp"
+#line 9073 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1167 "bison_parser.y"
+#line 1176 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 9070 "bison_parser.cpp"
+#line 9079 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1168 "bison_parser.y"
+#line 1177 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 9076 "bison_parser.cpp"
+#line 9085 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1169 "bison_parser.y"
+#line 1178 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 9082 "bison_parser.cpp"
+#line 9091 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1170 "bison_parser.y"
+#line 1179 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 9088 "bison_parser.cpp"
+#line 9097 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1172 "bison_parser.y"
+#line 1181 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 9094 "bison_parser.cpp"
+#line 9103 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1173 "bison_parser.y"
+#line 1182 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 9100 "bison_parser.cpp"
+#line 9109 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1175 "bison_parser.y"
+#line 1184 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 9106 "bison_parser.cpp"
+#line 9115 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1176 "bison_parser.y"
+#line 1185 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 9112 "bison_parser.cpp"
+#line 9121 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1178 "bison_parser.y"
+#line 1187 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 9118 "bison_parser.cpp"
+#line 9127 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1179 "bison_parser.y"
+#line 1188 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 9124 "bison_parser.cpp"
+#line 9133 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1180 "bison_parser.y"
+#line 1189 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 9130 "bison_parser.cpp"
+#line 9139 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1181 "bison_parser.y"
+#line 1190 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 9136 "bison_parser.cpp"
+#line 9145 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1182 "bison_parser.y"
+#line 1191 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 9142 "bison_parser.cpp"
+#line 9151 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1183 "bison_parser.y"
+#line 1192 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 9148 "bison_parser.cpp"
+#line 9157 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1184 "bison_parser.y"
+#line 1193 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 9154 "bison_parser.cpp"
+#line 9163 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1188 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 9160 "bison_parser.cpp"
+#line 9169 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1189 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 9166 "bison_parser.cpp"
+#line 9175 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1190 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 9172 "bison_parser.cpp"
+#line 9181 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1191 "bison_parser.y"
+#line 1200 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 9178 "bison_parser.cpp"
+#line 9187 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1195 "bison_parser.y"
+#line 1204 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 9184 "bison_parser.cpp"
+#line 9193 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1196 "bison_parser.y"
+#line 1205 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 9190 "bison_parser.cpp"
+#line 9199 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1198 "bison_parser.y"
+#line 1207 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 9196 "bison_parser.cpp"
+#line 9205 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1199 "bison_parser.y"
+#line 1208 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 9202 "bison_parser.cpp"
+#line 9211 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1204 "bison_parser.y"
+#line 1213 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 9208 "bison_parser.cpp"
+#line 9217 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1205 "bison_parser.y"
+#line 1214 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 9214 "bison_parser.cpp"
+#line 9223 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1206 "bison_parser.y"
+#line 1215 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 9222 "bison_parser.cpp"
+#line 9231 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1210 "bison_parser.y"
+#line 1219 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 9228 "bison_parser.cpp"
+#line 9237 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1211 "bison_parser.y"
+#line 1220 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 9234 "bison_parser.cpp"
+#line 9243 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1212 "bison_parser.y"
+#line 1221 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 9240 "bison_parser.cpp"
+#line 9249 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1214 "bison_parser.y"
+#line 1223 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 9246 "bison_parser.cpp"
+#line 9255 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1215 "bison_parser.y"
+#line 1224 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 9252 "bison_parser.cpp"
+#line 9261 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1216 "bison_parser.y"
+#line 1225 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 9258 "bison_parser.cpp"
+#line 9267 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1217 "bison_parser.y"
+#line 1226 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 9264 "bison_parser.cpp"
+#line 9273 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1218 "bison_parser.y"
+#line 1227 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 9270 "bison_parser.cpp"
+#line 9279 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1220 "bison_parser.y"
+#line 1229 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 9276 "bison_parser.cpp"
+#line 9285 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1222 "bison_parser.y"
+#line 1231 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 9282 "bison_parser.cpp"
+#line 9291 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1224 "bison_parser.y"
+#line 1233 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 9288 "bison_parser.cpp"
+#line 9297 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1225 "bison_parser.y"
+#line 1234 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 9294 "bison_parser.cpp"
+#line 9303 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1226 "bison_parser.y"
+#line 1235 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 9300 "bison_parser.cpp"
+#line 9309 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1227 "bison_parser.y"
+#line 1236 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 9306 "bison_parser.cpp"
+#line 9315 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1228 "bison_parser.y"
+#line 1237 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 9312 "bison_parser.cpp"
+#line 9321 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1229 "bison_parser.y"
+#line 1238 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 9318 "bison_parser.cpp"
+#line 9327 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1231 "bison_parser.y"
+#line 1240 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 9324 "bison_parser.cpp"
+#line 9333 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1232 "bison_parser.y"
+#line 1241 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 9330 "bison_parser.cpp"
+#line 9339 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1233 "bison_parser.y"
+#line 1242 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 9336 "bison_parser.cpp"
+#line 9345 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1234 "bison_parser.y"
+#line 1243 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 9342 "bison_parser.cpp"
+#line 9351 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1235 "bison_parser.y"
+#line 1244 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 9348 "bison_parser.cpp"
+#line 9357 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1236 "bison_parser.y"
+#line 1245 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 9354 "bison_parser.cpp"
+#line 9363 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1240 "bison_parser.y"
+#line 1249 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 9360 "bison_parser.cpp"
+#line 9369 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1242 "bison_parser.y"
+#line 1251 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 9369 "bison_parser.cpp"
+#line 9378 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1247 "bison_parser.y"
+#line 1256 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 9375 "bison_parser.cpp"
+#line 9384 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1249 "bison_parser.y"
+#line 1258 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 9381 "bison_parser.cpp"
+#line 9390 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1250 "bison_parser.y"
+#line 1259 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 9387 "bison_parser.cpp"
+#line 9396 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1251 "bison_parser.y"
+#line 1260 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 9393 "bison_parser.cpp"
+#line 9402 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1252 "bison_parser.y"
+#line 1261 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 9399 "bison_parser.cpp"
+#line 9408 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1256 "bison_parser.y"
+#line 1265 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 9405 "bison_parser.cpp"
+#line 9414 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1258 "bison_parser.y"
+#line 1267 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 9411 "bison_parser.cpp"
+#line 9420 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1259 "bison_parser.y"
+#line 1268 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 9417 "bison_parser.cpp"
+#line 9426 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1261 "bison_parser.y"
+#line 1270 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 9423 "bison_parser.cpp"
+#line 9432 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1264 "bison_parser.y"
+#line 1273 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 9429 "bison_parser.cpp"
+#line 9438 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1266 "bison_parser.y"
+#line 1275 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 9435 "bison_parser.cpp"
+#line 9444 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1268 "bison_parser.y"
+#line 1277 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -9446,17 +9455,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 9450 "bison_parser.cpp"
+#line 9459 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1279 "bison_parser.y"
+#line 1288 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 9456 "bison_parser.cpp"
+#line 9465 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1280 "bison_parser.y"
+#line 1289 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -9468,11 +9477,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 9472 "bison_parser.cpp"
+#line 9481 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1291 "bison_parser.y"
+#line 1300 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -9486,17 +9495,17 @@ yyreduce:
   free((yyvsp[0].sval));
 
   DatetimeField unit;
-  if (strcasecmp(unit_string, "second") == 0 || strcasecmp(unit_string, "seconds") == 0) {
+  if (equalsKeyword(unit_string, "second") || equalsKeyword(unit_string, "seconds")) {
     unit = kDatetimeSecond;
-  } else if (strcasecmp(unit_string, "minute") == 0 || strcasecmp(unit_string, "minutes") == 0) {
+  } else if (equalsKeyword(unit_string, "minute") || equalsKeyword(unit_string, "minutes")) {
     unit = kDatetimeMinute;
-  } else if (strcasecmp(unit_string, "hour") == 0 || strcasecmp(unit_string, "hours") == 0) {
+  } else if (equalsKeyword(unit_string, "hour") || equalsKeyword(unit_string, "hours")) {
     unit = kDatetimeHour;
-  } else if (strcasecmp(unit_string, "day") == 0 || strcasecmp(unit_string, "days") == 0) {
+  } else if (equalsKeyword(unit_string, "day") || equalsKeyword(unit_string, "days")) {
     unit = kDatetimeDay;
-  } else if (strcasecmp(unit_string, "month") == 0 || strcasecmp(unit_string, "months") == 0) {
+  } else if (equalsKeyword(unit_string, "month") || equalsKeyword(unit_string, "months")) {
     unit = kDatetimeMonth;
-  } else if (strcasecmp(unit_string, "year") == 0 || strcasecmp(unit_string, "years") == 0) {
+  } else if (equalsKeyword(unit_string, "year") || equalsKeyword(unit_string, "years")) {
     unit = kDatetimeYear;
   } else {
     yyerror(&yyloc, result, scanner, "Interval qualifier is unknown.");
@@ -9504,61 +9513,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 9508 "bison_parser.cpp"
+#line 9517 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1323 "bison_parser.y"
+#line 1332 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 9518 "bison_parser.cpp"
+#line 9527 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1332 "bison_parser.y"
+#line 1341 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 9529 "bison_parser.cpp"
+#line 9538 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1341 "bison_parser.y"
+#line 1350 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 9540 "bison_parser.cpp"
+#line 9549 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1348 "bison_parser.y"
+#line 1357 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 9549 "bison_parser.cpp"
+#line 9558 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1352 "bison_parser.y"
+#line 1361 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 9558 "bison_parser.cpp"
+#line 9567 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1357 "bison_parser.y"
+#line 1366 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -9566,215 +9575,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 9570 "bison_parser.cpp"
+#line 9579 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1365 "bison_parser.y"
+#line 1374 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 9580 "bison_parser.cpp"
+#line 9589 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1371 "bison_parser.y"
+#line 1380 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 9589 "bison_parser.cpp"
+#line 9598 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1375 "bison_parser.y"
+#line 1384 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 9598 "bison_parser.cpp"
+#line 9607 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1380 "bison_parser.y"
+#line 1389 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 9604 "bison_parser.cpp"
+#line 9613 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1381 "bison_parser.y"
+#line 1390 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 9610 "bison_parser.cpp"
+#line 9619 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1383 "bison_parser.y"
+#line 1392 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 9616 "bison_parser.cpp"
+#line 9625 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1385 "bison_parser.y"
+#line 1394 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 9622 "bison_parser.cpp"
+#line 9631 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1387 "bison_parser.y"
+#line 1396 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 9628 "bison_parser.cpp"
+#line 9637 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1388 "bison_parser.y"
+#line 1397 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 9634 "bison_parser.cpp"
+#line 9643 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1390 "bison_parser.y"
+#line 1399 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 9640 "bison_parser.cpp"
+#line 9649 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1396 "bison_parser.y"
+#line 1405 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 9646 "bison_parser.cpp"
+#line 9655 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1397 "bison_parser.y"
+#line 1406 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 9652 "bison_parser.cpp"
+#line 9661 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1399 "bison_parser.y"
+#line 1408 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 9661 "bison_parser.cpp"
+#line 9670 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1403 "bison_parser.y"
+#line 1412 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 9670 "bison_parser.cpp"
+#line 9679 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1408 "bison_parser.y"
+#line 1417 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 9681 "bison_parser.cpp"
+#line 9690 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1414 "bison_parser.y"
+#line 1423 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 9692 "bison_parser.cpp"
+#line 9701 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1421 "bison_parser.y"
+#line 1430 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 9698 "bison_parser.cpp"
+#line 9707 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1422 "bison_parser.y"
+#line 1431 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 9704 "bison_parser.cpp"
+#line 9713 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1423 "bison_parser.y"
+#line 1432 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 9710 "bison_parser.cpp"
+#line 9719 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1424 "bison_parser.y"
+#line 1433 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 9716 "bison_parser.cpp"
+#line 9725 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1426 "bison_parser.y"
+#line 1435 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 9722 "bison_parser.cpp"
+#line 9731 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1427 "bison_parser.y"
+#line 1436 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 9728 "bison_parser.cpp"
+#line 9737 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1428 "bison_parser.y"
+#line 1437 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 9734 "bison_parser.cpp"
+#line 9743 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1434 "bison_parser.y"
+#line 1443 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 9740 "bison_parser.cpp"
+#line 9749 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1436 "bison_parser.y"
+#line 1445 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 9746 "bison_parser.cpp"
+#line 9755 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1438 "bison_parser.y"
+#line 1447 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 9755 "bison_parser.cpp"
+#line 9764 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1442 "bison_parser.y"
+#line 1451 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 9764 "bison_parser.cpp"
+#line 9773 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1447 "bison_parser.y"
+#line 1456 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 9774 "bison_parser.cpp"
+#line 9783 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1457 "bison_parser.y"
+#line 1466 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9782,11 +9791,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 9786 "bison_parser.cpp"
+#line 9795 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1464 "bison_parser.y"
+#line 1473 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9795,11 +9804,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 9799 "bison_parser.cpp"
+#line 9808 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1472 "bison_parser.y"
+#line 1481 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -9808,89 +9817,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 9812 "bison_parser.cpp"
+#line 9821 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1481 "bison_parser.y"
+#line 1490 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 9818 "bison_parser.cpp"
+#line 9827 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1482 "bison_parser.y"
+#line 1491 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 9824 "bison_parser.cpp"
+#line 9833 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1483 "bison_parser.y"
+#line 1492 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 9830 "bison_parser.cpp"
+#line 9839 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1484 "bison_parser.y"
+#line 1493 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 9836 "bison_parser.cpp"
+#line 9845 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1485 "bison_parser.y"
+#line 1494 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 9842 "bison_parser.cpp"
+#line 9851 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1486 "bison_parser.y"
+#line 1495 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 9848 "bison_parser.cpp"
+#line 9857 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1487 "bison_parser.y"
+#line 1496 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 9854 "bison_parser.cpp"
+#line 9863 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1488 "bison_parser.y"
+#line 1497 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 9860 "bison_parser.cpp"
+#line 9869 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1489 "bison_parser.y"
+#line 1498 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 9866 "bison_parser.cpp"
+#line 9875 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1490 "bison_parser.y"
+#line 1499 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 9872 "bison_parser.cpp"
+#line 9881 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1501 "bison_parser.y"
+#line 1510 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 9881 "bison_parser.cpp"
+#line 9890 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1505 "bison_parser.y"
+#line 1514 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 9890 "bison_parser.cpp"
+#line 9899 "bison_parser.cpp"
     break;
 
 
-#line 9894 "bison_parser.cpp"
+#line 9903 "bison_parser.cpp"
 
       default: break;
     }
@@ -10119,7 +10128,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1511 "bison_parser.y"
+#line 1520 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index 99c00e0..b6753ac 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -53,7 +53,7 @@
 extern int hsql_debug;
 #endif
 /* "%code requires" blocks.  */
-#line 39 "bison_parser.y"
+#line 48 "bison_parser.y"
 
 // %code requires block
 
@@ -275,7 +275,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 107 "bison_parser.y"
+#line 116 "bison_parser.y"
 
   // clang-format on
   bool bval;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 677d967..45884b2 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -27,6 +27,15 @@
     result->setErrorDetails(strdup(msg), llocp->first_line, llocp->first_column);
     return 0;
   }
+
+  // Returns true if the text is the given keyword, regardless of the case. Unlike strcasecmp, this does not depend on
+  // the locale of the process (in Turkish locales, "I" is not the upper case letter of "i").
+  static bool equalsKeyword(const char* text, const char* keyword) {
+    const auto to_lower = [](const char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; };
+    for (; *text && to_lower(*text) == to_lower(*keyword); ++text, ++keyword)
+      ;
+    return !*text && !*keyword;
+  }
   // clang-format off
 %}
 // clang-format on
@@ -494,11 +503,11 @@ import_statement : IMPORT FROM file_type FILE file_path INTO table_name {
 };
 
 file_type : IDENTIFIER {
-  if (strcasecmp($1, "csv") == 0) {
+  if (equalsKeyword($1, "csv")) {
     $$ = kImportCSV;
-  } else if (strcasecmp($1, "tbl") == 0) {
+  } else if (equalsKeyword($1, "tbl")) {
     $$ = kImportTbl;
-  } else if (strcasecmp($1, "binary") == 0 || strcasecmp($1, "bin") == 0) {
+  } else if (equalsKeyword($1, "binary") || equalsKeyword($1, "bin")) {
     $$ = kImportBinary;
   } else {
     free($1);
@@ -579,9 +588,9 @@ import_export_options : import_export_options ',' FORMAT file_type {
 }
 
 csv_option : IDENTIFIER STRING {
-  if (strcasecmp($1, "DELIMITER") == 0) {
+  if (equalsKeyword($1, "DELIMITER")) {
     $$ = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, $2);
-  } else if (strcasecmp($1, "QUOTE") == 0) {
+  } else if (equalsKeyword($1, "QUOTE")) {
     $$ = new std::pair<CsvOptionType, char*>(CsvOptionType::Quote, $2);
   } else {
     free($1);
@@ -655,7 +664,7 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$->ifNotExists = $3;
   $$->schema = $4.schema;
   $$->tableName = $4.name;
-  if (strcasecmp($6, "tbl") != 0) {
+  if (!equalsKeyword($6, "tbl")) {
     free($6);
     free($8);
     delete $$;
@@ -1048,10 +1057,10 @@ opt_order_type : ASC { $$ = kOrderAsc; }
 opt_null_ordering : /* empty */ { $$ = NullOrdering::Undefined; }
 | IDENTIFIER IDENTIFIER {
   auto null_ordering = NullOrdering::Undefined;
-  if (strcasecmp($1, "nulls") == 0) {
-    if (strcasecmp($2, "first") == 0) {
+  if (equalsKeyword($1, "nulls")) {
+    if (equalsKeyword($2, "first")) {
       null_ordering = NullOrdering::First;
-    } else if (strcasecmp($2, "last") == 0) {
+    } else if (equalsKeyword($2, "last")) {
       null_ordering = NullOrdering::Last;
     }
   }
@@ -1301,17 +1310,17 @@ interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2
   free($2);
 
   DatetimeField unit;
-  if (strcasecmp(unit_string, "second") == 0 || strcasecmp(unit_string, "seconds") == 0) {
+  if (equalsKeyword(unit_string, "second") || equalsKeyword(unit_string, "seconds")) {
     unit = kDatetimeSecond;
-  } else if (strcasecmp(unit_string, "minute") == 0 || strcasecmp(unit_string, "minutes") == 0) {
+  } else if (equalsKeyword(unit_string, "minute") || equalsKeyword(unit_string, "minutes")) {
     unit = kDatetimeMinute;
-  } else if (strcasecmp(unit_string, "hour") == 0 || strcasecmp(unit_string, "hours") == 0) {
+  } else if (equalsKeyword(unit_string, "hour") || equalsKeyword(unit_string, "hours")) {
     unit = kDatetimeHour;
-  } else if (strcasecmp(unit_string, "day") == 0 || strcasecmp(unit_string, "days") == 0) {
+  } else if (equalsKeyword(unit_string, "day") || equalsKeyword(unit_string, "days")) {
     unit = kDatetimeDay;
-  } else if (strcasecmp(unit_string, "month") == 0 || strcasecmp(unit_string, "months") == 0) {
+  } else if (equalsKeyword(unit_string, "month") || equalsKeyword(unit_string, "months")) {
     unit = kDatetimeMonth;
-  } else if (strcasecmp(unit_string, "year") == 0 || strcasecmp(unit_string, "years") == 0) {
+  } else if (equalsKeyword(unit_string, "year") || equalsKeyword(unit_string, "years")) {
     unit = kDatetimeYear;
   } else {
     yyerror(&yyloc, result, scanner, "Interval qualifier is unknown.");
-- 
2.43.0


From 107c7f3750f8d2c7465b7379e64e66d0c53b1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 14/14] fix: do not recurse along operator and join chains when
 statements are destroyed

The grammar limits the nesting of a query, but not the length of chains of left-associative operators and joins. Destroying
a statement with 100,000 operators (also one that is rejected) exceeded the stack.
---
 src/sql/Expr.cpp       | 10 +++++++++-
 src/sql/statements.cpp | 16 +++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/sql/Expr.cpp b/src/sql/Expr.cpp
index d9c1f07..dbe1e36 100644
--- a/src/sql/Expr.cpp
+++ b/src/sql/Expr.cpp
@@ -63,7 +63,15 @@ Expr::Expr(ExprType type)
       windowDescription(nullptr) {}
 
 Expr::~Expr() {
-  delete expr;
+  // Left-associative operators form chains that can be as long as the query. Destroy them one by one, recursing into them
+  // could exceed the stack.
+  while (expr) {
+    Expr* child = expr;
+    expr = child->expr;
+    child->expr = nullptr;
+    delete child;
+  }
+
   delete expr2;
   delete select;
   delete windowDescription;
diff --git a/src/sql/statements.cpp b/src/sql/statements.cpp
index 02c531b..1518db6 100644
--- a/src/sql/statements.cpp
+++ b/src/sql/statements.cpp
@@ -392,9 +392,23 @@ TableRef::~TableRef() {
   free(name);
 
   delete select;
-  delete join;
   delete alias;
 
+  // Joins form chains that can be as long as the query. Destroy them one by one, recursing into them could exceed the
+  // stack.
+  while (join) {
+    JoinDefinition* chain = join;
+    TableRef* left = chain->left;
+    join = nullptr;
+    if (left) {
+      join = left->join;
+      left->join = nullptr;
+    }
+    chain->left = nullptr;
+    delete left;
+    delete chain;
+  }
+
   if (list) {
     for (TableRef* table : *list) {
       delete table;
-- 
2.43.0

