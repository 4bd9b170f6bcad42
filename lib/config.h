/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Defines automake version */
#define AUTOMAKE_VERSION 1.16.5

/* Define to compile with so entry loading enabled */
#define ENABLE_LOAD_SO_ENTRIES 1

/* Define to 1 if you have the <backward/hash_map> header file. */
#define HAVE_BACKWARD_HASH_MAP 1

/* Define to 1 if you have the <backward/hash_set> header file. */
#define HAVE_BACKWARD_HASH_SET 1

/* Define to 1 if you have the declaration of `program_invocation_name', and
   to 0 if you don't. */
#define HAVE_DECL_PROGRAM_INVOCATION_NAME 0

/* Define to 1 if you have the declaration of `program_invocation_short_name',
   and to 0 if you don't. */
#define HAVE_DECL_PROGRAM_INVOCATION_SHORT_NAME 0

/* Define to 1 if you have the declaration of `program_name', and to 0 if you
   don't. */
#define HAVE_DECL_PROGRAM_NAME 0

/* Define to 1 if you have the declaration of `rl_completion_matches', and to
   0 if you don't. */
#define HAVE_DECL_RL_COMPLETION_MATCHES 0

/* Define to 1 if you have the declaration of `rl_completion_suppress_append',
   and to 0 if you don't. */
#define HAVE_DECL_RL_COMPLETION_SUPPRESS_APPEND 0

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the `error' function. */
#define HAVE_ERROR 1

/* Define to 1 if you have the `error_at_line' function. */
#define HAVE_ERROR_AT_LINE 1

/* Define to 1 if you have the <error.h> header file. */
#define HAVE_ERROR_H 1

/* Define to 1 if you have the <ext/hash_map> header file. */
#define HAVE_EXT_HASH_MAP 1

/* Define to 1 if you have the <ext/hash_set> header file. */
#define HAVE_EXT_HASH_SET 1

/* Define to 1 if you have the <ext/slist> header file. */
#define HAVE_EXT_SLIST 1

/* Define to 1 if you have the `floor' function. */
#define HAVE_FLOOR 1

/* Define to compile foma support in HFST */
#define HAVE_FOMA 1

/* Define to 1 if you have the `getdelim' function. */
#define HAVE_GETDELIM 1

/* Define to 1 if you have the `getline' function. */
#define HAVE_GETLINE 1

/* Define to 1 if you have the `getopt_long' function. */
#define HAVE_GETOPT_LONG 1

/* Define to 1 if you have the `get_current_dir_name' function. */
#define HAVE_GET_CURRENT_DIR_NAME 1

/* Define to 1 if you have the <glob.h> header file. */
#define HAVE_GLOB_H 1

/* Define to 1 if you have the <hash_map> header file. */
#define HAVE_HASH_MAP 1

/* Define to 1 if you have the <hash_set> header file. */
#define HAVE_HASH_SET 1

/* Define to compile optimized lookup support in HFST */
#define HAVE_HFSTOL 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the `isatty' function. */
#define HAVE_ISATTY 1

/* Define to 1 if you have the <langinfo.h> header file. */
#define HAVE_LANGINFO_H 1

/* Define to compile OpenFst with lean log weight support in HFST */
/* #undef HAVE_LEAN_OPENFST_LOG */

/* Define to compile lean SFST support in HFST */
/* #undef HAVE_LEAN_SFST */

/* Define to 1 if you have the `dl' library (-ldl). */
#define HAVE_LIBDL 1

/* Define to 1 if you have the `m' library (-lm). */
#define HAVE_LIBM 1

/* Define to 1 if you have the `pthread' library (-lpthread). */
#define HAVE_LIBPTHREAD 1

/* Define to 1 if you have the `xfsm' library (-lxfsm). */
/* #undef HAVE_LIBXFSM */

/* Define to 1 if you have the <limits.h> header file. */
#define HAVE_LIMITS_H 1

/* Define to 1 if you have the <locale.h> header file. */
#define HAVE_LOCALE_H 1

/* Define to 1 if you have the `nl_langinfo' function. */
#define HAVE_NL_LANGINFO 1

/* Define to compile OpenFst support in HFST */
#define HAVE_OPENFST 1

/* Define not to compile OpenFst with full log weight support in HFST */
#define HAVE_OPENFST_LOG 1

/* if readline can be used */
#define HAVE_READLINE 1

/* Define to 1 if you have the <readline/history.h> header file. */
#define HAVE_READLINE_HISTORY_H 1

/* Define to 1 if you have the <readline/readline.h> header file. */
#define HAVE_READLINE_READLINE_H 1

/* Define to 1 if you have the `setlocale' function. */
#define HAVE_SETLOCALE 1

/* Define to 1 if you have the `setprogname' function. */
/* #undef HAVE_SETPROGNAME */

/* Define to 1 if you have the `set_program_name' function. */
/* #undef HAVE_SET_PROGRAM_NAME */

/* Define not to compile full SFST support in HFST */
#define HAVE_SFST 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the `strchr' function. */
#define HAVE_STRCHR 1

/* Define to 1 if you have the `strcspn' function. */
#define HAVE_STRCSPN 1

/* Define to 1 if you have the `strdup' function. */
#define HAVE_STRDUP 1

/* Define to 1 if you have the `strerror' function. */
#define HAVE_STRERROR 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the `strncasecmp' function. */
#define HAVE_STRNCASECMP 1

/* Define to 1 if you have the `strndup' function. */
#define HAVE_STRNDUP 1

/* Define to 1 if you have the `strtod' function. */
#define HAVE_STRTOD 1

/* Define to 1 if you have the `strtol' function. */
#define HAVE_STRTOL 1

/* Define to 1 if you have the `strtoul' function. */
#define HAVE_STRTOUL 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to compile xfsm support in HFST */
/* #undef HAVE_XFSM */

/* Define to 1 if you have the `xstrdup' function. */
/* #undef HAVE_XSTRDUP */

/* Define to hfst version vector as long in base 10000 */
#define HFST_LONGVERSION 300170001L

/* Automatically substitute to configure.ac revision */
#define HFST_REVISION "$Revision$"

/* Define to libhfst pretty name for programs to print */
#define HFST_STRING "hfst 3.17.1"

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "hfst"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "https://github.com/hfst/hfst/issues"

/* Define to the full name of this package. */
#define PACKAGE_NAME "hfst"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "hfst 3.17.1"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "hfst"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "3.17.1"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* if using icu for unicode string handling */
#define USE_ICU_UNICODE 1

/* Version number of package */
#define VERSION "3.17.1"

/* Define to 1 if `lex' declares `yytext' as a `char *' by default, not a
   `char[]'. */
#define YYTEXT_POINTER 1
