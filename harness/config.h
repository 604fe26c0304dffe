/* src/config.h.  Generated from config.h.in by configure.  */
/* src/config.h.in.  Generated from configure.ac by autoheader.  */

/* Define to the value of the compilation flags */
#define CFLAGS "-g -O2"

/* Define to 1 if you have the <assert.h> header file. */
#define HAVE_ASSERT_H 1

/* Define to 1 if debug is enabled */
/* #undef HAVE_DEBUG */

/* Define to 1 if defaults is enabled */
/* #undef HAVE_DEFAULTS */

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the epoll */
#ifndef VERIF_SELECT
#define HAVE_EPOLL 1
#endif

/* Define to 1 if you have the `floor' function. */
/* #undef HAVE_FLOOR */

/* Define if getaddrinfo exists and works well enough for APR */
#define HAVE_GETADDRINFO 1

/* Define if getnameinfo exists */
#define HAVE_GETNAMEINFO 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define if you have ipv6 support */
#ifndef VERIF_PLAIN
#define HAVE_IP6 1
#endif

/* Define to 1 if you have the <jni.h> header file. */
/* #undef HAVE_JNI_H */

/* Define to 1 if you have the `crypto' library (-lcrypto). */
#ifndef VERIF_PLAIN
#define HAVE_LIBCRYPTO 1
#endif

/* Define to 1 if you have the `dl' library (-ldl). */
#define HAVE_LIBDL 1

/* Define to 1 if you have the `log' library (-llog). */
/* #undef HAVE_LIBLOG */

/* Define to 1 if you have the `pcre' library (-lpcre). */
#ifndef VERIF_PLAIN
#define HAVE_LIBPCRE 1
#endif

/* Define to 1 if you have the `psapi' library (-lpsapi). */
/* #undef HAVE_LIBPSAPI */

/* Define to 1 if you have the `pthread' library (-lpthread). */
#define HAVE_LIBPTHREAD 1

/* Define to 1 if you have the `ssl' library (-lssl). */
#ifndef VERIF_PLAIN
#define HAVE_LIBSSL 1
#endif

/* Define to 1 if you have the `ws2_32' library (-lws2_32). */
/* #undef HAVE_LIBWS2_32 */

/* Define to 1 if you have the `malloc' function. */
#define HAVE_MALLOC 1

/* Define to 1 if you have the `memset' function. */
#define HAVE_MEMSET 1

/* Define to 1 if memory pool is enabled */
/* #undef HAVE_MPOOL */

/* Define to 1 if you have the <openssl/ssl.h> header file. */
#ifndef VERIF_PLAIN
#define HAVE_OPENSSL_SSL_H 1
#endif

/* Define to 1 if you have the <pcre.h> header file. */
#ifndef VERIF_PLAIN
#define HAVE_PCRE_H 1
#endif

/* Define to 1 if prefork is enabled */
/* #undef HAVE_PREFORK */

/* Define to 1 if you have the `realloc' function. */
#define HAVE_REALLOC 1

/* HAVE_SOCKADDR_IN6 */
#ifndef VERIF_PLAIN
#define HAVE_SOCKADDR_IN6 1
#endif

/* HAVE_SOCKADDR_STORAGE */
#define HAVE_SOCKADDR_STORAGE 1

/* HAVE_SOCKADDR_UN */
#define HAVE_SOCKADDR_UN 1

/* Define to 1 if stdbool.h conforms to C99. */
#define HAVE_STDBOOL_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if the system has the type `_Bool'. */
#define HAVE__BOOL 1

/* Define to the value that describes the host os */
#define HOST_OS "linux-gnu"

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "viriatum"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "development@hive.pt"

/* Define to the full name of this package. */
#define PACKAGE_NAME "viriatum"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "viriatum 1.0.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "viriatum"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.0.0"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "1.0.0"

/* Define to a value if config root is set */
#define WITH_CONFIG_ROOT "conf"

/* Define to a value if module root is set */
#define WITH_MODULE_ROOT "modules"

/* Define to a value if prefix is set */
#define WITH_PREFIX "/usr/local"

/* Define to a value if www root is set */
#define WITH_WWW_ROOT "www"

/* Define to `__inline__' or `__inline' if that's what the C compiler
   calls it, or to nothing if 'inline' is not supported under any name.  */
#ifndef __cplusplus
/* #undef inline */
#endif

/* Define to `unsigned int' if <sys/types.h> does not define. */
/* #undef size_t */
